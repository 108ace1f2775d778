From af29ccf2ba06a38d41d12950b6753efe693f6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 01/50] fix: reject sheared, stretched and non-finite matrices
 as rotations

---
 include/huira_impl/core/rotation.ipp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/rotation.ipp b/include/huira_impl/core/rotation.ipp
index 42329bc..153b878 100644
--- a/include/huira_impl/core/rotation.ipp
+++ b/include/huira_impl/core/rotation.ipp
@@ -531,11 +531,25 @@ void Rotation<T>::set_matrix_(Mat3<T> matrix)
 {
     constexpr T loose_epsilon = static_cast<T>(1e-3);
     T det = glm::determinant(matrix);
-    if (std::fabs(det - 1.0) > loose_epsilon) {
+    // Written so that a NaN (which compares false with everything) is rejected as well:
+    if (!(std::fabs(det - 1.0) <= loose_epsilon)) {
         HUIRA_THROW_ERROR(
             "Rotation matrix must have a determinant close to 1. Given matrix has determinant: " +
             std::to_string(det));
     }
+
+    // A sheared or stretched matrix can have a unit determinant and still not be a rotation:
+    constexpr T loose_orthogonality = static_cast<T>(1e-2);
+    const Mat3<T> gram = glm::transpose(matrix) * matrix;
+    for (int i = 0; i < 3; ++i) {
+        for (int j = 0; j < 3; ++j) {
+            const T expected = (i == j) ? T(1) : T(0);
+            if (!(std::fabs(gram[i][j] - expected) <= loose_orthogonality)) {
+                HUIRA_THROW_ERROR("Rotation matrix must be orthonormal. Given matrix: " +
+                                  glm::to_string(matrix));
+            }
+        }
+    }
     this->matrix_ = orthonormalize_(matrix);
 }
 
-- 
2.43.0


From 76155cde0e374e5fea24bd165b3470fb2e17a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 02/50] fix: one mile is 1609.344 m, not 1609.34 m

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From 1a3dd6ab9756e883832c0cf87e785bdbb3a9f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 03/50] fix: Transform::to_matrix is T * R * S in glm's
 column-major layout

---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..d127aed 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From 2b47dcf50f39057786e3aa242f50052f23750216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 04/50] fix: the inverse of a rotating transform carries the
 rotation into its velocity

---
 include/huira_impl/core/transform.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index d127aed..875c97b 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -123,7 +123,9 @@ Transform<T> Transform<T>::inverse() const
     result.position = result.rotation * (-position * result.scale);
 
     // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    // The inverse frame also sees the rotation of this frame: d/dt(R^-1 p) = R^-1 (v - w x p)
+    result.velocity =
+        result.rotation * ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From a6370ac255a0e0897accd2be01b33b3bd3517d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 05/50] fix: relativistic aberration gives a unit direction
 (missing Lorentz factor on the velocity terms)

---
 include/huira_impl/core/physics.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..ca955f6 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,15 +249,16 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
-        //                             gamma * (1 + u . beta)
+        //    Formula: u_app = (u + gamma * beta + (gamma^2 / (1+gamma)) * (u . beta) * beta)
+        //                     --------------------------------------------------------------
+        //                                  gamma * (1 + u . beta)
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
         // (u + beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        Vec3<double> num =
+            direction + gamma * beta + (gamma * gamma / (1.0 + gamma)) * u_dot_beta * beta;
         double den = gamma * (1.0 + u_dot_beta);
 
         return num / den;
-- 
2.43.0


From 8c0e361689ed3ea3e8ece1330821daa43beaf3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 06/50] fix: linspace of one sample and integration of an empty
 table are well defined

---
 include/huira_impl/core/physics.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index ca955f6..cafa8fb 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -61,7 +61,7 @@ template <IsFloatingPoint T>
 std::vector<T> linspace(T min, T max, size_t N)
 {
     std::vector<T> output(N);
-    T step = (max - min) / static_cast<T>(N - 1);
+    T step = (N > 1) ? (max - min) / static_cast<T>(N - 1) : T(0);
     for (size_t i = 0; i < N; ++i) {
         output[i] = min + (static_cast<T>(i) * step);
     }
@@ -221,7 +221,7 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 inline double integrate(const std::vector<double>& x, const std::vector<double>& y)
 {
     double sum = 0.0;
-    for (size_t i = 0; i < x.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < x.size(); ++i) {
         double dx = x[i + 1] - x[i];
         double avg_y = 0.5 * (y[i] + y[i + 1]);
         sum += avg_y * dx;
-- 
2.43.0


From 4f41a8f3755a356dbc725f6aabb69b6f95842d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 07/50] fix: RGB to spectral conversion uses the full RGB range
 and unsorted bin layouts

---
 include/huira_impl/core/spectral_bins.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..e94eb1b 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -797,10 +797,21 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         return rgb;
     } else {
         // Determine overlap between TSpectral's full range and RGB's full range
-        constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
-        constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
-        constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
+        // (bins need not be sorted by wavelength)
+        constexpr auto range = [](const auto& bins) {
+            Bin result = bins[0];
+            for (const Bin& bin : bins) {
+                result = Bin(std::min(result.min_wavelength, bin.min_wavelength),
+                             std::max(result.max_wavelength, bin.max_wavelength));
+            }
+            return result;
+        };
+        constexpr Bin spectral_range = range(TSpectral::get_all_bins());
+        constexpr Bin full_rgb_range = range(RGB::get_all_bins());
+        constexpr double spectral_min = spectral_range.min_wavelength;
+        constexpr double spectral_max = spectral_range.max_wavelength;
+        constexpr double rgb_min = full_rgb_range.min_wavelength; // 380nm (blue bin min)
+        constexpr double rgb_max = full_rgb_range.max_wavelength; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
         constexpr double overlap_max = std::min(spectral_max, rgb_max);
-- 
2.43.0


From 18fb306b2a66c94c96a6b0e33ca47e77f8b1773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 08/50] fix: image access rejects negative and non-finite
 coordinates, sampling is exact for integer pixels, sizes do not overflow

---
 include/huira/images/image.hpp      |  2 +
 include/huira_impl/images/image.ipp | 82 ++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/include/huira/images/image.hpp b/include/huira/images/image.hpp
index ed8cf36..6659f3c 100644
--- a/include/huira/images/image.hpp
+++ b/include/huira/images/image.hpp
@@ -141,6 +141,8 @@ class Image {
 
     int sensor_bit_depth_ = 0;
 
+    [[nodiscard]] static std::size_t pixel_count_(int width, int height);
+
     [[nodiscard]] std::size_t to_linear(int x, int y) const noexcept;
 
     template <WrapMode W>
diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..a97ad1f 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 
 #include "fftw3.h"
@@ -27,7 +28,7 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(pixel_count_(resolution.width, resolution.height)), resolution_{resolution}
 {
 }
 
@@ -41,7 +42,7 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(pixel_count_(resolution.width, resolution.height), fill_value),
       resolution_{resolution}
 {
 }
@@ -56,7 +57,7 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(pixel_count_(width, height)), resolution_{width, height}
 {
 }
 
@@ -71,7 +72,7 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(pixel_count_(width, height), fill_value), resolution_{width, height}
 {
 }
 
@@ -290,7 +291,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +308,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -326,11 +327,12 @@ template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (!(pixel.x >= 0 && pixel.y >= 0 && static_cast<double>(pixel.x) < resolution_.width &&
+          static_cast<double>(pixel.y) < resolution_.height)) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
@@ -347,11 +349,12 @@ template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (!(pixel.x >= 0 && pixel.y >= 0 && static_cast<double>(pixel.x) < resolution_.width &&
+          static_cast<double>(pixel.y) < resolution_.height)) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
@@ -433,11 +436,20 @@ PixelT Image<PixelT>::sample_bilinear(float u, float v) const
     const PixelT& p11 = data_[to_linear(x1, y1)];
 
     if constexpr (std::is_arithmetic_v<PixelT>) {
-        float result = static_cast<float>(p00) * (1.0f - fx) * (1.0f - fy) +
-                       static_cast<float>(p10) * fx * (1.0f - fy) +
-                       static_cast<float>(p01) * (1.0f - fx) * fy +
-                       static_cast<float>(p11) * fx * fy;
-        return static_cast<PixelT>(result);
+        const double dx = static_cast<double>(fx);
+        const double dy = static_cast<double>(fy);
+        const double result = static_cast<double>(p00) * (1.0 - dx) * (1.0 - dy) +
+                              static_cast<double>(p10) * dx * (1.0 - dy) +
+                              static_cast<double>(p01) * (1.0 - dx) * dy +
+                              static_cast<double>(p11) * dx * dy;
+        if constexpr (std::is_integral_v<PixelT>) {
+            if (result >= static_cast<double>(std::numeric_limits<PixelT>::max())) {
+                return std::numeric_limits<PixelT>::max();
+            }
+            return static_cast<PixelT>(std::round(result));
+        } else {
+            return static_cast<PixelT>(result);
+        }
     } else if constexpr (is_vec3_v<PixelT>) {
         using S = typename Traits::Scalar;
         return PixelT{static_cast<S>(p00.x * (1.0f - fx) * (1.0f - fy) + p10.x * fx * (1.0f - fy) +
@@ -577,7 +589,24 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
+}
+
+/**
+ * @brief Computes the number of pixels of an image, rejecting negative sizes.
+ *
+ * @param width The width of the image in pixels
+ * @param height The height of the image in pixels
+ * @return The number of pixels
+ */
+template <IsImagePixel PixelT>
+std::size_t Image<PixelT>::pixel_count_(int width, int height)
+{
+    if (width < 0 || height < 0) {
+        HUIRA_THROW_ERROR("Image: width and height must not be negative");
+    }
+    return static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
 }
 
 /**
@@ -592,20 +621,25 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    if (std::isnan(coord)) {
+        return 0.0f;
+    }
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
-    } else if constexpr (W == WrapMode::Repeat) {
+    }
+    if (std::isinf(coord)) {
+        return 0.0f;
+    }
+    if constexpr (W == WrapMode::Repeat) {
         coord = std::fmod(coord, max);
         if (coord < 0.0f) {
             coord += max;
         }
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
-        coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        coord = std::fmod(std::fabs(coord), 2.0f * max);
+        if (coord > max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From 24333381f60dbbcae5bc8f894c5280f3642d558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 09/50] fix: small kernels are convolved, not correlated, as
 large ones are

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index a97ad1f..dd89e41 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -661,12 +661,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From c4482374b5b424d5efbf217792757fc3a64e6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 10/50] fix: conversion to integer pixels is defined for NaN
 and wide types and rounds negative levels to nearest; depth map of equal
 depths

---
 include/huira/images/color_map.hpp            |  3 +-
 .../huira_impl/images/io/convert_pixel.ipp    | 39 ++++++++++++++-----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/huira/images/color_map.hpp b/include/huira/images/color_map.hpp
index 51f9b4a..3e20a15 100644
--- a/include/huira/images/color_map.hpp
+++ b/include/huira/images/color_map.hpp
@@ -42,7 +42,8 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
             output[i] = huira::RGB{1, 1, 1};
             continue;
         }
-        float d = 0.8f * (depth[i] - min_depth) / (max_depth - min_depth);
+        float d = max_depth > min_depth ? 0.8f * (depth[i] - min_depth) / (max_depth - min_depth)
+                                        : 0.f;
         output[i] = huira::RGB{d, d, d};
     }
     return output;
diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..d6fb5f0 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -99,20 +100,38 @@ float integer_to_float(T value, float min_range, float max_range)
 template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-    return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
+    double normalized = (static_cast<double>(value) - static_cast<double>(min_range)) /
+                        (static_cast<double>(max_range) - static_cast<double>(min_range));
+    if (!(normalized > 0.0)) {
+        return T{0}; // Also NaN
+    }
+    if (normalized >= 1.0) {
+        return std::numeric_limits<T>::max();
+    }
+    const double scaled = normalized * static_cast<double>(std::numeric_limits<T>::max()) + 0.5;
+    if (scaled >= static_cast<double>(std::numeric_limits<T>::max())) {
+        return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(scaled);
 }
 
 template <IsSignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float type_min = static_cast<float>(std::numeric_limits<T>::min());
-    float type_max = static_cast<float>(std::numeric_limits<T>::max());
-
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    const double type_min = static_cast<double>(std::numeric_limits<T>::min());
+    const double type_max = static_cast<double>(std::numeric_limits<T>::max());
+    double normalized = (static_cast<double>(value) - static_cast<double>(min_range)) /
+                        (static_cast<double>(max_range) - static_cast<double>(min_range));
+    if (!(normalized > 0.0)) {
+        return std::numeric_limits<T>::min(); // Also NaN
+    }
+    if (normalized >= 1.0) {
+        return std::numeric_limits<T>::max();
+    }
+    const double scaled = std::floor(type_min + normalized * (type_max - type_min) + 0.5);
+    if (scaled >= type_max) {
+        return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(scaled);
 }
 } // namespace huira
-- 
2.43.0


From a53e57e679b4a5097a0f4d5c9c3f064cb03c545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 11/50] fix: bound every header-driven size in the image
 decoders, decode orientation/masks/depths as specified, and report failed
 image writes

---
 include/huira/images/io/fits_metadata.hpp |   4 +-
 include/huira_impl/images/io/bmp_io.ipp   |  62 +++-
 include/huira_impl/images/io/fits_io.ipp  | 117 +++++---
 include/huira_impl/images/io/hdr_io.ipp   |  32 +-
 include/huira_impl/images/io/jpeg_io.ipp  |  32 +-
 include/huira_impl/images/io/png_io.ipp   | 349 ++++++++++++----------
 include/huira_impl/images/io/tga_io.ipp   |  28 +-
 include/huira_impl/images/io/tiff_io.ipp  | 133 +++++++--
 8 files changed, 498 insertions(+), 259 deletions(-)

diff --git a/include/huira/images/io/fits_metadata.hpp b/include/huira/images/io/fits_metadata.hpp
index e0a50c0..400bb32 100644
--- a/include/huira/images/io/fits_metadata.hpp
+++ b/include/huira/images/io/fits_metadata.hpp
@@ -108,7 +108,9 @@ struct FitsMetadata {
     /// Returns true if any WCS field has been set.
     [[nodiscard]] bool has_wcs() const noexcept
     {
-        return crpix1.has_value() || crval1.has_value() || cdelt1.has_value() || !ctype1.empty();
+        return crpix1.has_value() || crpix2.has_value() || crval1.has_value() ||
+               crval2.has_value() || cdelt1.has_value() || cdelt2.has_value() || !ctype1.empty() ||
+               !ctype2.empty();
     }
 
     // TODO (multi-band):
diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..819633d 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,8 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -65,7 +67,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size - 14 < dib_size) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,48 +94,80 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
 
+    // Byte position of each channel within a pixel: BGR(A), unless BI_BITFIELDS says otherwise
+    std::size_t channel_byte[4] = {2, 1, 0, 3};
     bool has_alpha = (bits_per_pixel == 32);
+    if (compression == 3) {
+        // The R, G and B masks follow the first 40 bytes of the DIB header (as part of it from V2
+        // on), the alpha mask only exists from V3 on
+        if (bits_per_pixel != 32 || size < 66) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Unsupported BI_BITFIELDS layout");
+        }
+        uint32_t masks[4] = {0, 0, 0, 0};
+        std::memcpy(masks, &data[54], 3 * sizeof(uint32_t));
+        if (dib_size >= 56) {
+            std::memcpy(&masks[3], &data[66], sizeof(uint32_t));
+        }
+        has_alpha = (masks[3] != 0);
+        for (std::size_t c = 0; c < (has_alpha ? 4u : 3u); ++c) {
+            std::size_t byte = 0;
+            while (byte < 4 && masks[c] != (uint32_t{0xFF} << (8 * byte))) {
+                ++byte;
+            }
+            if (byte == 4) {
+                HUIRA_THROW_ERROR("read_bmp_raw_ - Unsupported BI_BITFIELDS channel mask");
+            }
+            channel_byte[c] = byte;
+        }
+    }
     int out_channels = has_alpha ? 4 : 3;
     int file_channels = bits_per_pixel / 8;
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
-        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+    if (pixel_offset > size || (size - pixel_offset) / row_stride < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (have " +
+                          std::to_string(size) + " bytes)");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
+            std::size_t src_idx =
+                static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
             std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
+                (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                 static_cast<std::size_t>(x)) *
                 static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
-            raw_data[dst_idx + 0] = src_row[src_idx + 2]; // R
-            raw_data[dst_idx + 1] = src_row[src_idx + 1]; // G
-            raw_data[dst_idx + 2] = src_row[src_idx + 0]; // B
+            raw_data[dst_idx + 0] = src_row[src_idx + channel_byte[0]]; // R
+            raw_data[dst_idx + 1] = src_row[src_idx + channel_byte[1]]; // G
+            raw_data[dst_idx + 2] = src_row[src_idx + channel_byte[2]]; // B
 
             if (has_alpha) {
-                raw_data[dst_idx + 3] = src_row[src_idx + 3]; // A
+                raw_data[dst_idx + 3] = src_row[src_idx + channel_byte[3]]; // A
             }
         }
     }
diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..a8dde96 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -4,14 +4,21 @@
 #include <cassert>
 #include <cmath>
 #include <cstring>
+#include <filesystem>
 #include <limits>
+#include <optional>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <variant>
 #include <vector>
 
 #include <fitsio.h>
 
+#include "huira/images/io/fits_metadata.hpp"
+#include "huira/util/logger.hpp"
+#include "huira/util/paths.hpp"
+
 namespace huira {
 
 // =====================================================================
@@ -285,7 +292,7 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
             "SIMPLE",   "BITPIX", "NAXIS",   "NAXIS1",  "NAXIS2",   "NAXIS3",   "EXTEND",
             "BZERO",    "BSCALE", "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
             "DATE-OBS", "ORIGIN", "EXPTIME", "FILTER",  "BUNIT",    "DATAMIN",  "DATAMAX",
-            "SATURATE", "CRPIX1", "CRPIX2",  "CRVAL1",  "CRVAL2",   "CDELT1",   "CDELT2",
+            "SATURATE", "BLANK",  "CRPIX1", "CRPIX2",  "CRVAL1",  "CRVAL2",   "CDELT1",   "CDELT2",
             "CTYPE1",   "CTYPE2", "EQUINOX", "RADESYS", nullptr};
 
         auto is_known = [&](const char* key) -> bool {
@@ -396,28 +403,28 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
     return m;
 }
 
-// Maximum ADU value for the full range of a given BITPIX.
+// Maximum ADU value for the full range of a given BITPIX (16 and 32 stand for the unsigned types,
+// which FITS stores as signed + BZERO).
 inline double bitpix_max(int bitpix)
 {
     switch (bitpix) {
     case 8:
         return 255.0;
     case 16:
-        return 32767.0;
+        return 65535.0;
     case 32:
-        return 2147483647.0;
+        return 4294967295.0;
     default:
         return 1.0;
     }
 }
 
+// Stored value (before BZERO) of ADU 0, which marks undefined pixels of integer images.
 inline long fits_blank_value(int bit_depth)
 {
     switch (bit_depth) {
-    case 8:
-        return 0; // reserve 0; clamp valid pixels to [1, 255]
     case 16:
-        return -32768; // signed min, outside valid ADU range
+        return -32768L;
     case 32:
         return -2147483648L;
     default:
@@ -434,7 +441,7 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     detail::FitsFile ff;
     int status = 0;
 
-    fits_open_file(&ff.fptr, filepath.string().c_str(), READONLY, &status);
+    fits_open_diskfile(&ff.fptr, filepath.string().c_str(), READONLY, &status);
     detail::fits_check(status, "open " + filepath.string());
 
     // --- Image dimensions & type ---
@@ -463,6 +470,12 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
                           ").  Use read_image_fits_cube() for multi-band images.");
     }
 
+    constexpr long max_dimension = std::numeric_limits<int>::max();
+    if (naxes[0] <= 0 || naxes[1] <= 0 || naxes[0] > max_dimension || naxes[1] > max_dimension) {
+        HUIRA_THROW_ERROR("FITS image has invalid dimensions (" + std::to_string(naxes[0]) + " x " +
+                          std::to_string(naxes[1]) + ").");
+    }
+
     const int width = static_cast<int>(naxes[0]);
     const int height = static_cast<int>(naxes[1]);
 
@@ -474,10 +487,19 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     const long npixels = static_cast<long>(width) * height;
     std::vector<float> buffer(static_cast<std::size_t>(npixels));
 
-    long fpixel[2] = {1, 1};
+    std::vector<long> fpixel(static_cast<std::size_t>(naxis), 1L);
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
+    // Undefined (BLANK) pixels of integer images become NaN
+    float null_value = std::numeric_limits<float>::quiet_NaN();
+    fits_read_pix(ff.fptr,
+                  TFLOAT,
+                  fpixel.data(),
+                  npixels,
+                  bitpix > 0 ? &null_value : nullptr,
+                  buffer.data(),
+                  &anynul,
+                  &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
@@ -492,12 +514,18 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
 
     if (is_integer_bitpix) {
         double divisor;
-        if (metadata.saturate && *metadata.saturate > 0.0) {
+        if (metadata.saturate && *metadata.saturate > 0.0 && std::isfinite(*metadata.saturate)) {
             divisor = *metadata.saturate;
             // Infer sensor bit depth from SATURATE  (e.g. 4095 → 12)
             inferred_sensor_bits = static_cast<int>(std::round(std::log2(divisor + 1.0)));
         } else {
+            int equivalent_type = bitpix; // Tells unsigned (BZERO) from signed storage
+            fits_get_img_equivtype(ff.fptr, &equivalent_type, &status);
+            detail::fits_check(status, "get image type");
             divisor = detail::bitpix_max(bitpix);
+            if (equivalent_type == SHORT_IMG || equivalent_type == LONG_IMG) {
+                divisor = std::floor(divisor / 2.0);
+            }
         }
 
         const float inv = 1.0f / static_cast<float>(divisor);
@@ -517,7 +545,8 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
 
     for (int y = 0; y < height; ++y) {
         const int fits_row = height - 1 - y;
-        const float* src = buffer.data() + static_cast<std::size_t>(fits_row * width);
+        const float* src = buffer.data() +
+                           static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(width);
         for (int x = 0; x < width; ++x) {
             image(x, y) = src[x];
         }
@@ -555,8 +584,12 @@ inline void write_image_fits(const fs::path& filepath,
     detail::FitsFile ff;
     int status = 0;
 
-    const std::string cfitsio_path = "!" + filepath.string();
-    fits_create_file(&ff.fptr, cfitsio_path.c_str(), &status);
+    // The path is a plain file name: no CFITSIO extended file name syntax
+    std::error_code remove_error;
+    if (fs::is_regular_file(filepath, remove_error)) {
+        fs::remove(filepath, remove_error);
+    }
+    fits_create_diskfile(&ff.fptr, filepath.string().c_str(), &status);
     detail::fits_check(status, "create " + filepath.string());
 
     // --- Create image HDU ---
@@ -573,7 +606,9 @@ inline void write_image_fits(const fs::path& filepath,
     //         fits_write_pix(fptr, TFLOAT, fpixel, w*h, plane_data, &status);
     //     }
 
-    fits_create_img(ff.fptr, bit_depth, 2, naxes, &status);
+    const int image_type =
+        (bit_depth == 16) ? USHORT_IMG : ((bit_depth == 32) ? ULONG_IMG : bit_depth);
+    fits_create_img(ff.fptr, image_type, 2, naxes, &status);
     detail::fits_check(status, "create image HDU");
 
     // --- Determine ADU scaling for integer BITPIX ---
@@ -609,67 +644,69 @@ inline void write_image_fits(const fs::path& filepath,
 
     // --- Prepare pixel buffer (flip to FITS bottom-up order) ---
     const long npixels = static_cast<long>(w) * h;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
-    float actual_min = std::numeric_limits<float>::max();
-    float actual_max = -std::numeric_limits<float>::max();
+    double actual_min = std::numeric_limits<double>::max();
+    double actual_max = -std::numeric_limits<double>::max();
 
-    long blank_value = 0;
-    if (is_integer) {
-        blank_value = detail::fits_blank_value(bit_depth);
+    // ADU 0 stands for undefined pixels where there are any: valid ones start at 1 then
+    bool has_undefined = false;
+    for (std::size_t i = 0; i < image.size(); ++i) {
+        has_undefined = has_undefined || !std::isfinite(image[i]);
     }
+    const bool has_blank = is_integer && has_undefined;
+    bool has_range = false;
 
-    bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        double* dst =
+            buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(w);
         for (int x = 0; x < w; ++x) {
-            float px = image(x, y);
+            double px = static_cast<double>(image(x, y));
 
             if (!std::isfinite(px)) {
-                if (is_integer) {
-                    dst[x] = static_cast<float>(blank_value);
-                    has_blank = true;
-                } else {
-                    dst[x] = std::numeric_limits<float>::quiet_NaN();
-                }
+                dst[x] = is_integer ? 0.0 : std::numeric_limits<double>::quiet_NaN();
             } else {
                 if (is_integer) {
-                    float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(px * static_cast<float>(adc_max),
-                                    lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                    px = std::clamp(std::round(px * adc_max),
+                                    has_blank ? 1.0 : 0.0,
+                                    detail::bitpix_max(bit_depth));
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
                 actual_max = std::max(actual_max, px);
+                has_range = true;
             }
         }
     }
 
     // --- Write DATAMIN / DATAMAX (actual values in the file) ---
     {
-        if (!meta_copy.datamin) {
+        if (!meta_copy.datamin && has_range) {
             detail::write_double_key(ff.fptr, "DATAMIN", actual_min, "Minimum pixel value", status);
         }
-        if (!meta_copy.datamax) {
+        if (!meta_copy.datamax && has_range) {
             detail::write_double_key(ff.fptr, "DATAMAX", actual_max, "Maximum pixel value", status);
         }
         detail::fits_check(status, "write DATAMIN/DATAMAX");
     }
 
-    if (is_integer && has_blank) {
-        long blank_val = static_cast<long>(blank_value);
+    if (has_blank) {
+        long blank_val = detail::fits_blank_value(bit_depth);
         fits_update_key(
             ff.fptr, TLONG, "BLANK", &blank_val, "Value representing undefined pixels", &status);
         detail::fits_check(status, "write BLANK keyword");
     }
 
     // --- Write pixels ---
-    // CFITSIO converts TFLOAT → on-disk BITPIX, quantising as needed.
+    // CFITSIO converts TDOUBLE → on-disk BITPIX, quantising as needed.
     long fpixel[2] = {1, 1};
-    fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
+    fits_write_pix(ff.fptr, TDOUBLE, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
+
+    fits_close_file(ff.fptr, &status);
+    ff.fptr = nullptr;
+    detail::fits_check(status, "close " + filepath.string());
 }
 
 } // namespace huira
diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..3ca8cd6 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
@@ -35,7 +36,7 @@ struct MemCursor_ {
     std::size_t size;
     std::size_t pos = 0;
 
-    bool has_remaining(std::size_t n) const { return pos + n <= size; }
+    bool has_remaining(std::size_t n) const { return n <= size - pos; }
 
     bool read(unsigned char* dst, std::size_t n)
     {
@@ -132,8 +133,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
             break;
         }
 
-        if (line.find("FORMAT=32-bit_rle_rgbe") != std::string::npos ||
-            line.find("FORMAT=32-bit_rle_xyze") != std::string::npos) {
+        if (line.find("FORMAT=32-bit_rle_xyze") != std::string::npos) {
+            HUIRA_THROW_ERROR("read_hdr_raw_ - XYZE pixel format is not supported");
+        }
+        if (line.find("FORMAT=32-bit_rle_rgbe") != std::string::npos) {
             found_format = true;
         }
     }
@@ -183,6 +186,21 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(height) + ")");
     }
 
+    // The first sign of each axis says where scanlines and pixels start
+    const bool bottom_to_top = (line[0] == '+');
+    const bool right_to_left = (line.find("-X") != std::string::npos);
+
+    // Reject truncated data before allocating: a run-length encoded channel takes at least 2 bytes
+    // per 127 pixels, and is only possible up to 32767 pixels
+    const std::size_t width_sz = static_cast<std::size_t>(width);
+    std::size_t min_scanline_bytes = width_sz * 4;
+    if (width <= 32767) {
+        min_scanline_bytes = std::min(min_scanline_bytes, 4 + 8 * ((width_sz + 126) / 127));
+    }
+    if ((size - cur.pos) / min_scanline_bytes < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of data");
+    }
+
     // Decode scanlines
     std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
     std::vector<float> raw_data(num_pixels * 3);
@@ -258,8 +276,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
+            const int dst_x = right_to_left ? width - 1 - x : x;
+            const int dst_y = bottom_to_top ? height - 1 - y : y;
+            std::size_t dst = (static_cast<std::size_t>(dst_y) * static_cast<std::size_t>(width) +
+                               static_cast<std::size_t>(dst_x)) *
                               3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
@@ -294,6 +314,7 @@ inline ImageBundle<RGB> read_image_hdr(const unsigned char* data, std::size_t si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<RGB> bundle{Image<RGB>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
             std::size_t idx =
@@ -342,6 +363,7 @@ inline ImageBundle<float> read_image_hdr_mono(const unsigned char* data, std::si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<float> bundle{Image<float>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
 
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..38efc2f 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -1,6 +1,9 @@
 #include <cstddef>
 #include <cstdio>
 #include <filesystem>
+#include <memory>
+#include <string>
+#include <type_traits>
 #include <vector>
 
 #include <turbojpeg.h>
@@ -17,6 +20,11 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
+struct TJHandleDeleter_ {
+    void operator()(tjhandle handle) const noexcept { tjDestroy(handle); }
+};
+using ScopedTJHandle_ = std::unique_ptr<std::remove_pointer_t<tjhandle>, TJHandleDeleter_>;
+
 struct JPEGData {
     Resolution resolution{0, 0};
     int width = 0;
@@ -42,7 +50,8 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
     HUIRA_LOG_INFO("read_jpeg_raw_ - Reading JPEG from memory (" + std::to_string(size) +
                    " bytes)");
 
-    tjhandle decompressor = tjInitDecompress();
+    ScopedTJHandle_ scoped_handle(tjInitDecompress());
+    tjhandle decompressor = scoped_handle.get();
     if (!decompressor) {
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to create TurboJPEG decompressor");
     }
@@ -60,13 +69,14 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
                             &subsamp,
                             &colorspace) != 0) {
         std::string tj_err = tjGetErrorStr2(decompressor);
-        tjDestroy(decompressor);
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to read JPEG header (" + tj_err + ")");
     }
 
     int pixel_format = force_gray ? TJPF_GRAY : TJPF_RGB;
     int channels = force_gray ? 1 : 3;
-    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width * height * channels));
+    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(channels));
 
     if (tjDecompress2(decompressor,
                       data,
@@ -78,12 +88,9 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
                       pixel_format,
                       0) != 0) {
         std::string tj_err = tjGetErrorStr2(decompressor);
-        tjDestroy(decompressor);
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to decompress JPEG (" + tj_err + ")");
     }
 
-    tjDestroy(decompressor);
-
     JPEGData jpeg_data{};
     jpeg_data.resolution = Resolution{width, height};
     jpeg_data.width = width;
@@ -167,7 +174,7 @@ inline ImageBundle<float> read_image_jpeg_mono(const unsigned char* data, std::s
 
     ImageBundle<float> bundle{Image<float>(jpeg_data.resolution)};
 
-    for (std::size_t i = 0; i < static_cast<std::size_t>(jpeg_data.width * jpeg_data.height); ++i) {
+    for (std::size_t i = 0; i < bundle.image.size(); ++i) {
         bundle.image[i] = integer_to_float<std::uint8_t>(jpeg_data.raw_data[i]);
     }
 
@@ -243,7 +250,8 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
     }
 
     // Compress using TurboJPEG
-    tjhandle compressor = tjInitCompress();
+    ScopedTJHandle_ scoped_handle(tjInitCompress());
+    tjhandle compressor = scoped_handle.get();
     if (!compressor) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to create TurboJPEG compressor");
     }
@@ -263,13 +271,11 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
                     quality,
                     0) != 0) {
         std::string tj_err = tjGetErrorStr2(compressor);
-        tjDestroy(compressor);
+        tjFree(jpeg_buf);
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to compress JPEG: " + filepath.string() +
                           " (" + tj_err + ")");
     }
 
-    tjDestroy(compressor);
-
     // Write compressed data to file
 #ifdef _MSC_VER
     FILE* fp = nullptr;
@@ -289,10 +295,10 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
 #endif
 
     std::size_t written = fwrite(jpeg_buf, 1, jpeg_size, fp);
-    fclose(fp);
+    const bool closed = (fclose(fp) == 0);
     tjFree(jpeg_buf);
 
-    if (written != jpeg_size) {
+    if (written != jpeg_size || !closed) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to write complete JPEG data: " +
                           filepath.string());
     }
diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..ec093b5 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -129,6 +129,59 @@ static void png_warning_handler_(png_structp /*png_ptr*/, png_const_charp messag
 }
 }
 
+/**
+ * @brief Runs a sequence of libpng calls, with setjmp/longjmp confined to this frame.
+ *
+ * The callable must not own objects with destructors: a libpng error jumps out of it.
+ *
+ * @return false if libpng reported an error
+ */
+template <typename Func>
+bool png_guarded_(png_structp png_ptr, Func&& func)
+{
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        return false;
+    }
+    func();
+    return true;
+}
+
+/// Owns the libpng read structures, so that every way out of the reader releases them.
+struct PngReadStructs_ {
+    png_structp png_ptr = nullptr;
+    png_infop info_ptr = nullptr;
+
+    PngReadStructs_() = default;
+    PngReadStructs_(const PngReadStructs_&) = delete;
+    PngReadStructs_& operator=(const PngReadStructs_&) = delete;
+    ~PngReadStructs_()
+    {
+        if (png_ptr) {
+            png_destroy_read_struct(&png_ptr, info_ptr ? &info_ptr : nullptr, nullptr);
+        }
+    }
+};
+
+/// Owns the libpng write structures and the output file.
+struct PngWriteStructs_ {
+    png_structp png_ptr = nullptr;
+    png_infop info_ptr = nullptr;
+    FILE* fp = nullptr;
+
+    PngWriteStructs_() = default;
+    PngWriteStructs_(const PngWriteStructs_&) = delete;
+    PngWriteStructs_& operator=(const PngWriteStructs_&) = delete;
+    ~PngWriteStructs_()
+    {
+        if (png_ptr) {
+            png_destroy_write_struct(&png_ptr, info_ptr ? &info_ptr : nullptr);
+        }
+        if (fp) {
+            fclose(fp);
+        }
+    }
+};
+
 /**
  * @brief Decodes a PNG from an in-memory buffer into raw byte data.
  *
@@ -154,104 +207,102 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
         HUIRA_THROW_ERROR("read_png_raw_ - Data is not a valid PNG (bad signature)");
     }
 
-    png_structp png_ptr = png_create_read_struct(
+    PngReadStructs_ png;
+    png.png_ptr = png_create_read_struct(
         PNG_LIBPNG_VER_STRING, nullptr, png_error_handler_, png_warning_handler_);
-    if (!png_ptr) {
+    if (!png.png_ptr) {
         HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG read struct");
     }
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
+    png.info_ptr = png_create_info_struct(png.png_ptr);
+    if (!png.info_ptr) {
         HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
     }
 
-    if (setjmp(png_jmpbuf(png_ptr))) {
-        png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
-        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
-    }
+    png_structp png_ptr = png.png_ptr;
+    png_infop info_ptr = png.info_ptr;
 
-    // Set up custom memory read
+    PNGData png_data{};
     PngMemReadState_ read_state{data, size, 8}; // Skip past signature
-    png_set_read_fn(png_ptr, &read_state, png_mem_read_callback_);
-    png_set_sig_bytes(png_ptr, 8);
 
-    png_read_info(png_ptr, info_ptr);
+    const bool header_ok = png_guarded_(png_ptr, [&]() {
+        // Set up custom memory read
+        png_set_read_fn(png_ptr, &read_state, png_mem_read_callback_);
+        png_set_sig_bytes(png_ptr, 8);
 
-    // Detect color space before any transformations
-    PngColorInfo color_info = detect_png_color_space_(png_ptr, info_ptr);
+        png_read_info(png_ptr, info_ptr);
 
-    png_uint_32 width = png_get_image_width(png_ptr, info_ptr);
-    png_uint_32 height = png_get_image_height(png_ptr, info_ptr);
-    png_byte color_type = png_get_color_type(png_ptr, info_ptr);
-    png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+        // Detect color space before any transformations
+        png_data.color_info = detect_png_color_space_(png_ptr, info_ptr);
 
-    Resolution resolution{static_cast<int>(width), static_cast<int>(height)};
+        png_data.width = png_get_image_width(png_ptr, info_ptr);
+        png_data.height = png_get_image_height(png_ptr, info_ptr);
+        png_byte color_type = png_get_color_type(png_ptr, info_ptr);
+        png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
 
-    // Expand palette to RGB(A)
-    if (color_type == PNG_COLOR_TYPE_PALETTE) {
-        png_set_palette_to_rgb(png_ptr);
-    }
+        // Expand palette to RGB(A)
+        if (color_type == PNG_COLOR_TYPE_PALETTE) {
+            png_set_palette_to_rgb(png_ptr);
+        }
 
-    // Expand low bit depth grayscale to 8-bit
-    if (color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
-        png_set_expand_gray_1_2_4_to_8(png_ptr);
-    }
+        // Expand low bit depth grayscale to 8-bit
+        if (color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
+            png_set_expand_gray_1_2_4_to_8(png_ptr);
+        }
 
-    // Expand tRNS to full alpha channel
-    if (png_get_valid(png_ptr, info_ptr, PNG_INFO_tRNS)) {
-        png_set_tRNS_to_alpha(png_ptr);
-    }
+        // Expand tRNS to full alpha channel
+        if (png_get_valid(png_ptr, info_ptr, PNG_INFO_tRNS)) {
+            png_set_tRNS_to_alpha(png_ptr);
+        }
 
-    // For 16-bit, ensure native byte order
-    if (bit_depth == 16) {
-        png_set_swap(png_ptr);
-    }
+        // For 16-bit, ensure native byte order
+        if (bit_depth == 16) {
+            png_set_swap(png_ptr);
+        }
 
-    png_read_update_info(png_ptr, info_ptr);
-
-    // Get final format after transformations
-    png_byte final_color_type = png_get_color_type(png_ptr, info_ptr);
-    png_byte final_bit_depth = png_get_bit_depth(png_ptr, info_ptr);
-
-    bool is_gray =
-        (final_color_type == PNG_COLOR_TYPE_GRAY || final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA);
-    bool has_alpha = (final_color_type & PNG_COLOR_MASK_ALPHA) != 0;
-
-    unsigned int channels = 0;
-    if (final_color_type == PNG_COLOR_TYPE_GRAY) {
-        channels = 1;
-    } else if (final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA) {
-        channels = 2;
-    } else if (final_color_type == PNG_COLOR_TYPE_RGB) {
-        channels = 3;
-    } else if (final_color_type == PNG_COLOR_TYPE_RGB_ALPHA) {
-        channels = 4;
-    }
+        png_read_update_info(png_ptr, info_ptr);
+
+        // Get final format after transformations
+        png_byte final_color_type = png_get_color_type(png_ptr, info_ptr);
+        png_data.final_bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+
+        png_data.is_gray = (final_color_type == PNG_COLOR_TYPE_GRAY ||
+                            final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA);
+        png_data.has_alpha = (final_color_type & PNG_COLOR_MASK_ALPHA) != 0;
 
-    std::size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
-    std::vector<png_byte> raw_data(row_bytes * height);
-    std::vector<png_bytep> row_pointers(height);
+        if (final_color_type == PNG_COLOR_TYPE_GRAY) {
+            png_data.channels = 1;
+        } else if (final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA) {
+            png_data.channels = 2;
+        } else if (final_color_type == PNG_COLOR_TYPE_RGB) {
+            png_data.channels = 3;
+        } else if (final_color_type == PNG_COLOR_TYPE_RGB_ALPHA) {
+            png_data.channels = 4;
+        }
 
-    for (png_uint_32 y = 0; y < height; ++y) {
-        row_pointers[y] = raw_data.data() + y * row_bytes;
+        png_data.row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+    });
+    if (!header_ok) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
     }
 
-    png_read_image(png_ptr, row_pointers.data());
-    png_read_end(png_ptr, nullptr);
-    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+    png_data.resolution =
+        Resolution{static_cast<int>(png_data.width), static_cast<int>(png_data.height)};
 
-    PNGData png_data{};
-    png_data.resolution = resolution;
-    png_data.height = height;
-    png_data.width = width;
-    png_data.channels = channels;
-    png_data.raw_data = std::move(raw_data);
-    png_data.row_bytes = row_bytes;
-    png_data.color_info = color_info;
-    png_data.final_bit_depth = final_bit_depth;
-    png_data.has_alpha = has_alpha;
-    png_data.is_gray = is_gray;
+    png_data.raw_data.resize(png_data.row_bytes * png_data.height);
+    std::vector<png_bytep> row_pointers(png_data.height);
+    for (png_uint_32 y = 0; y < png_data.height; ++y) {
+        row_pointers[y] = png_data.raw_data.data() + y * png_data.row_bytes;
+    }
+
+    png_bytepp rows = row_pointers.data();
+    const bool pixels_ok = png_guarded_(png_ptr, [&]() {
+        png_read_image(png_ptr, rows);
+        png_read_end(png_ptr, nullptr);
+    });
+    if (!pixels_ok) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
+    }
 
     return png_data;
 }
@@ -520,131 +571,109 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
     int width = output_image.image.width();
     int height = output_image.image.height();
 
+    PngWriteStructs_ png;
 #ifdef _MSC_VER
-    FILE* fp = nullptr;
-    errno_t err = fopen_s(&fp, filepath.string().c_str(), "wb");
-    if (err != 0 || !fp) {
+    errno_t err = fopen_s(&png.fp, filepath.string().c_str(), "wb");
+    if (err != 0 || !png.fp) {
         HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
                           filepath.string());
     }
 #else
-    FILE* fp = fopen(filepath.string().c_str(), "wb");
-    if (!fp) {
+    png.fp = fopen(filepath.string().c_str(), "wb");
+    if (!png.fp) {
         HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
                           filepath.string());
     }
 #endif
 
-    png_structp png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
-    if (!png_ptr) {
-        fclose(fp);
+    png.png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    if (!png.png_ptr) {
         HUIRA_THROW_ERROR("write_image_png - Failed to create PNG write struct");
     }
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_write_struct(&png_ptr, nullptr);
-        fclose(fp);
+    png.info_ptr = png_create_info_struct(png.png_ptr);
+    if (!png.info_ptr) {
         HUIRA_THROW_ERROR("write_image_png - Failed to create PNG info struct");
     }
 
-#ifdef _MSC_VER
-#pragma warning(push)
-#pragma warning(disable : 4611 5039)
-#endif
-    if (setjmp(png_jmpbuf(png_ptr))) {
-        png_destroy_write_struct(&png_ptr, &info_ptr);
-        fclose(fp);
-        HUIRA_THROW_ERROR("write_image_png - Error during PNG write: " + filepath.string());
-    }
-#ifdef _MSC_VER
-#pragma warning(pop)
-#endif
+    png_structp png_ptr = png.png_ptr;
+    png_infop info_ptr = png.info_ptr;
 
-    png_init_io(png_ptr, fp);
-
-    png_set_IHDR(png_ptr,
-                 info_ptr,
-                 static_cast<png_uint_32>(width),
-                 static_cast<png_uint_32>(height),
-                 output_image.bit_depth,
-                 color_type,
-                 PNG_INTERLACE_NONE,
-                 PNG_COMPRESSION_TYPE_DEFAULT,
-                 PNG_FILTER_TYPE_DEFAULT);
-
-    // Write the colorspace:
-    switch (output_image.color_space) {
-    case ColorSpaceHint::sRGB:
-        png_set_sRGB(png_ptr, info_ptr, PNG_sRGB_INTENT_PERCEPTUAL);
-        break;
+    const bool header_ok = png_guarded_(png_ptr, [&]() {
+        png_init_io(png_ptr, png.fp);
 
-    case ColorSpaceHint::Linear:
-        png_set_gAMA(png_ptr, info_ptr, 1.0);
-        break;
+        png_set_IHDR(png_ptr,
+                     info_ptr,
+                     static_cast<png_uint_32>(width),
+                     static_cast<png_uint_32>(height),
+                     output_image.bit_depth,
+                     color_type,
+                     PNG_INTERLACE_NONE,
+                     PNG_COMPRESSION_TYPE_DEFAULT,
+                     PNG_FILTER_TYPE_DEFAULT);
 
-    case ColorSpaceHint::Gamma:
-        png_set_gAMA(png_ptr, info_ptr, 1.0 / output_image.gamma_value);
-        break;
+        // Write the colorspace:
+        switch (output_image.color_space) {
+        case ColorSpaceHint::sRGB:
+            png_set_sRGB(png_ptr, info_ptr, PNG_sRGB_INTENT_PERCEPTUAL);
+            break;
 
-    case ColorSpaceHint::Unknown:
-    default:
-        break;
-    }
+        case ColorSpaceHint::Linear:
+            png_set_gAMA(png_ptr, info_ptr, 1.0);
+            break;
 
-    png_write_info(png_ptr, info_ptr);
+        case ColorSpaceHint::Gamma:
+            png_set_gAMA(png_ptr, info_ptr, 1.0 / static_cast<double>(output_image.gamma_value));
+            break;
 
-    if (output_image.bit_depth == 16) {
-        png_set_swap(png_ptr);
-    }
+        case ColorSpaceHint::Unknown:
+        default:
+            break;
+        }
+
+        png_write_info(png_ptr, info_ptr);
 
-    if (output_image.bit_depth == 16) {
-        std::vector<std::uint16_t> row_data(static_cast<std::size_t>(width) * channels);
+        if (output_image.bit_depth == 16) {
+            png_set_swap(png_ptr);
+        }
+    });
+    if (!header_ok) {
+        HUIRA_THROW_ERROR("write_image_png - Error during PNG write: " + filepath.string());
+    }
 
+    auto write_rows = [&]<typename SampleT>(std::vector<SampleT> row_data) -> bool {
         for (int y = 0; y < height; ++y) {
             for (int x = 0; x < width; ++x) {
                 std::size_t x_u = static_cast<std::size_t>(x);
                 const RGB& pixel = output_image.image(x, y);
 
-                row_data[x_u * channels + 0] = float_to_integer<std::uint16_t>(pixel[0]);
-                row_data[x_u * channels + 1] = float_to_integer<std::uint16_t>(pixel[1]);
-                row_data[x_u * channels + 2] = float_to_integer<std::uint16_t>(pixel[2]);
+                row_data[x_u * channels + 0] = float_to_integer<SampleT>(pixel[0]);
+                row_data[x_u * channels + 1] = float_to_integer<SampleT>(pixel[1]);
+                row_data[x_u * channels + 2] = float_to_integer<SampleT>(pixel[2]);
 
                 if (has_alpha) {
                     row_data[x_u * channels + 3] =
-                        float_to_integer<std::uint16_t>(output_image.alpha(x, y));
+                        float_to_integer<SampleT>(output_image.alpha(x, y));
                 }
             }
 
             png_bytep row_ptr = reinterpret_cast<png_bytep>(row_data.data());
-            png_write_row(png_ptr, row_ptr);
+            if (!png_guarded_(png_ptr, [&]() { png_write_row(png_ptr, row_ptr); })) {
+                return false;
+            }
         }
-    } else {
-        std::vector<std::uint8_t> row_data(static_cast<std::size_t>(width) * channels);
+        return png_guarded_(png_ptr, [&]() { png_write_end(png_ptr, nullptr); });
+    };
 
-        for (int y = 0; y < height; ++y) {
-            for (int x = 0; x < width; ++x) {
-                std::size_t x_u = static_cast<std::size_t>(x);
-                const RGB& pixel = output_image.image(x, y);
+    const std::size_t row_samples = static_cast<std::size_t>(width) * channels;
+    const bool pixels_ok = (output_image.bit_depth == 16)
+                               ? write_rows(std::vector<std::uint16_t>(row_samples))
+                               : write_rows(std::vector<std::uint8_t>(row_samples));
 
-                row_data[x_u * channels + 0] = float_to_integer<std::uint8_t>(pixel[0]);
-                row_data[x_u * channels + 1] = float_to_integer<std::uint8_t>(pixel[1]);
-                row_data[x_u * channels + 2] = float_to_integer<std::uint8_t>(pixel[2]);
-
-                if (has_alpha) {
-                    row_data[x_u * channels + 3] =
-                        float_to_integer<std::uint8_t>(output_image.alpha(x, y));
-                }
-            }
-
-            png_bytep row_ptr = row_data.data();
-            png_write_row(png_ptr, row_ptr);
-        }
+    FILE* fp = std::exchange(png.fp, nullptr);
+    if (fclose(fp) != 0 || !pixels_ok) {
+        HUIRA_THROW_ERROR("write_image_png - Error during PNG write: " + filepath.string());
     }
-
-    png_write_end(png_ptr, nullptr);
-    png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(fp);
 }
 
 } // namespace huira
diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..5bc5029 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -78,6 +79,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     int width = static_cast<int>(width_u16);
     int height = static_cast<int>(height_u16);
     bool top_origin = (descriptor & 0x20) != 0;
+    bool right_origin = (descriptor & 0x10) != 0;
 
     // Validate image type
     bool is_rle = (image_type == 9 || image_type == 10 || image_type == 11);
@@ -90,6 +92,21 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(static_cast<int>(image_type)) + ")");
     }
 
+    if (width == 0 || height == 0) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Invalid dimensions (" + std::to_string(width) + " x " +
+                          std::to_string(height) + ")");
+    }
+    const bool valid_depth =
+        is_truecolor ? (pixel_depth == 24 || pixel_depth == 32)
+                     : (is_gray ? pixel_depth == 8 : (pixel_depth == 8 || pixel_depth == 16));
+    if (!valid_depth) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+    if (is_color_mapped && (color_map_type != 1 || (cm_entry_size != 24 && cm_entry_size != 32))) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported or missing TGA color map");
+    }
+
     // Current read position in buffer
     std::size_t pos = 18;
 
@@ -169,14 +186,16 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 }
             } else {
                 // Raw packet: 'count' literal pixel values
-                std::size_t bytes_to_read = static_cast<std::size_t>(count) * index_bytes;
+                const std::size_t packet_pixels =
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded);
+                std::size_t bytes_to_read = packet_pixels * index_bytes;
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
                 std::memcpy(
                     &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
                 pos += bytes_to_read;
-                pixels_decoded += static_cast<std::size_t>(count);
+                pixels_decoded += packet_pixels;
             }
         }
     } else {
@@ -197,7 +216,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         for (int x = 0; x < width; ++x) {
             std::size_t src_pixel =
                 static_cast<std::size_t>(src_y) * static_cast<std::size_t>(width) +
-                static_cast<std::size_t>(x);
+                static_cast<std::size_t>(right_origin ? width - 1 - x : x);
             std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
                                    static_cast<std::size_t>(x)) *
                                   static_cast<std::size_t>(out_channels);
@@ -212,6 +231,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
                 index = static_cast<uint16_t>(index - cm_first_index);
+                if (index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range");
+                }
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
                                static_cast<std::size_t>(cm_bytes_per_entry)];
diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..4f695c5 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -15,6 +15,7 @@
 #include "huira/images/io/convert_pixel.hpp"
 #include "huira/images/io/io_util.hpp"
 #include "huira/util/logger.hpp"
+#include "huira/util/paths.hpp"
 #include "tiffio.h"
 
 namespace fs = std::filesystem;
@@ -46,6 +47,46 @@ struct TIFFData {
     int alpha_index = -1;
 };
 
+/**
+ * @brief Rearranges decoded samples so that the first one is the visual top-left pixel.
+ *
+ * @param tiff_data Decoded samples, in the order the file stores them
+ * @param orientation The file's TIFFTAG_ORIENTATION
+ */
+inline void apply_tiff_orientation_(TIFFData& tiff_data, uint16_t orientation)
+{
+    const bool transpose = orientation >= ORIENTATION_LEFTTOP && orientation <= ORIENTATION_LEFTBOT;
+    const bool mirror_x =
+        orientation == ORIENTATION_TOPRIGHT || orientation == ORIENTATION_BOTRIGHT ||
+        orientation == ORIENTATION_RIGHTTOP || orientation == ORIENTATION_RIGHTBOT;
+    const bool mirror_y =
+        orientation == ORIENTATION_BOTRIGHT || orientation == ORIENTATION_BOTLEFT ||
+        orientation == ORIENTATION_RIGHTBOT || orientation == ORIENTATION_LEFTBOT;
+    if (!transpose && !mirror_x && !mirror_y) {
+        return;
+    }
+
+    const std::size_t src_w = static_cast<std::size_t>(tiff_data.width);
+    const std::size_t src_h = static_cast<std::size_t>(tiff_data.height);
+    const std::size_t dst_w = transpose ? src_h : src_w;
+    const std::size_t dst_h = transpose ? src_w : src_h;
+    for (auto& channel : tiff_data.channels) {
+        std::vector<float> oriented(channel.size());
+        for (std::size_t y = 0; y < dst_h; ++y) {
+            for (std::size_t x = 0; x < dst_w; ++x) {
+                const std::size_t ox = mirror_x ? dst_w - 1 - x : x;
+                const std::size_t oy = mirror_y ? dst_h - 1 - y : y;
+                oriented[y * dst_w + x] =
+                    transpose ? channel[ox * src_w + oy] : channel[oy * src_w + ox];
+            }
+        }
+        channel = std::move(oriented);
+    }
+    tiff_data.width = static_cast<int>(dst_w);
+    tiff_data.height = static_cast<int>(dst_h);
+    tiff_data.resolution = Resolution{tiff_data.width, tiff_data.height};
+}
+
 // =========================================================================
 // TIFFClientOpen memory I/O callbacks
 // =========================================================================
@@ -138,7 +179,8 @@ inline toff_t tiff_mem_size_(thandle_t handle) noexcept
  * Uses libtiff via TIFFClientOpen with custom memory I/O callbacks. Extracts
  * all channels as separate floating-point arrays. Handles the following:
  *   - Sample formats: uint8, uint16, uint32, float32
- *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette, Separated (CMYK)
+ *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette
+ *   - Orientations: all eight
  *   - Storage: both stripped and tiled TIFFs
  *   - Planar configurations: chunky (interleaved) and separate (planar)
  *   - Extra samples: detects associated/unassociated alpha
@@ -216,6 +258,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     uint16_t sample_format = SAMPLEFORMAT_UINT;
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
     uint16_t planar_config = PLANARCONFIG_CONTIG;
+    uint16_t orientation = ORIENTATION_TOPLEFT;
 
     TIFFGetField(tif.get(), TIFFTAG_IMAGEWIDTH, &width);
     TIFFGetField(tif.get(), TIFFTAG_IMAGELENGTH, &height);
@@ -224,8 +267,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_SAMPLEFORMAT, &sample_format);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PHOTOMETRIC, &photometric);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PLANARCONFIG, &planar_config);
+    TIFFGetFieldDefaulted(tif.get(), TIFFTAG_ORIENTATION, &orientation);
 
-    if (width == 0 || height == 0) {
+    constexpr uint32_t max_dimension = static_cast<uint32_t>(std::numeric_limits<int>::max());
+    if (width == 0 || height == 0 || width > max_dimension || height > max_dimension) {
         HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid dimensions (" + std::to_string(width) + " x " +
                           std::to_string(height) + ")");
     }
@@ -253,13 +298,19 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                           "), only 32-bit float supported");
     }
 
+    if (photometric != PHOTOMETRIC_MINISBLACK && photometric != PHOTOMETRIC_MINISWHITE &&
+        photometric != PHOTOMETRIC_RGB && photometric != PHOTOMETRIC_PALETTE) {
+        HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported photometric interpretation (" +
+                          std::to_string(static_cast<int>(photometric)) + ")");
+    }
+
     // Handle palette images via RGBA fallback
     if (photometric == PHOTOMETRIC_PALETTE) {
         std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
         std::vector<uint32_t> rgba_data(num_pixels);
 
         if (!TIFFReadRGBAImageOriented(
-                tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 0)) {
+                tif.get(), width, height, rgba_data.data(), orientation, 1)) {
             HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read palette TIFF via RGBA");
         }
 
@@ -285,6 +336,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             tiff_data.channels[3][i] = static_cast<float>(TIFFGetA(pixel)) / 255.0f;
         }
 
+        apply_tiff_orientation_(tiff_data, orientation);
         return tiff_data;
     }
 
@@ -314,7 +366,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     }
 
     // Lambda to convert a raw sample value to float
-    auto sample_to_float = [&](const unsigned char* ptr, int byte_offset) -> float {
+    auto sample_to_float = [&](const unsigned char* ptr, std::size_t byte_offset) -> float {
         if (is_float) {
             float val;
             std::memcpy(&val, ptr + byte_offset, sizeof(float));
@@ -343,12 +395,26 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         TIFFGetField(tif.get(), TIFFTAG_TILELENGTH, &tile_height);
 
         tsize_t tile_size = TIFFTileSize(tif.get());
+        const std::size_t tile_samples =
+            static_cast<std::size_t>(tile_width) * tile_height *
+            (planar_config == PLANARCONFIG_CONTIG ? num_channels : std::size_t{1});
+        if (tile_width == 0 || tile_height == 0 || tile_width > max_dimension ||
+            tile_height > max_dimension || tile_size <= 0 ||
+            static_cast<std::size_t>(tile_size) / bytes_per_sample < tile_samples) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid tile size");
+        }
         std::vector<unsigned char> tile_buf(static_cast<std::size_t>(tile_size));
+        auto read_tile = [&](uint32_t tx, uint32_t ty, uint16_t plane) {
+            if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, plane) < 0) {
+                HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at (" +
+                                  std::to_string(tx) + ", " + std::to_string(ty) + ")");
+            }
+        };
 
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    read_tile(tx, ty, 0);
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -365,7 +431,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                             for (std::size_t ch = 0; ch < num_channels; ++ch) {
                                 channels[ch][dst_pixel] = sample_to_float(
                                     tile_buf.data(),
-                                    static_cast<int>(tile_pixel_offset + ch * bytes_per_sample));
+                                    tile_pixel_offset + ch * bytes_per_sample);
                             }
                         }
                     }
@@ -376,7 +442,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        read_tile(tx, ty, ch);
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
@@ -391,7 +457,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                                     static_cast<std::size_t>(ty + row) * width + (tx + col);
 
                                 channels[ch][dst_pixel] =
-                                    sample_to_float(tile_buf.data(), static_cast<int>(tile_offset));
+                                    sample_to_float(tile_buf.data(), tile_offset);
                             }
                         }
                     }
@@ -401,6 +467,13 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     } else {
         // Stripped storage
         tsize_t scanline_size = TIFFScanlineSize(tif.get());
+        const std::size_t scanline_samples =
+            static_cast<std::size_t>(width) *
+            (planar_config == PLANARCONFIG_CONTIG ? num_channels : std::size_t{1});
+        if (scanline_size <= 0 ||
+            static_cast<std::size_t>(scanline_size) / bytes_per_sample < scanline_samples) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid scanline size");
+        }
         std::vector<unsigned char> scanline_buf(static_cast<std::size_t>(scanline_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
@@ -418,7 +491,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                     for (std::size_t ch = 0; ch < num_channels; ++ch) {
                         channels[ch][dst_pixel] =
                             sample_to_float(scanline_buf.data(),
-                                            static_cast<int>(pixel_offset + ch * bytes_per_sample));
+                                            pixel_offset + ch * bytes_per_sample);
                     }
                 }
             }
@@ -437,7 +510,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                         std::size_t dst_pixel = static_cast<std::size_t>(y) * width + x;
 
                         channels[ch][dst_pixel] =
-                            sample_to_float(scanline_buf.data(), static_cast<int>(sample_offset));
+                            sample_to_float(scanline_buf.data(), sample_offset);
                     }
                 }
             }
@@ -466,6 +539,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     tiff_data.has_alpha = has_alpha;
     tiff_data.alpha_index = alpha_index;
 
+    apply_tiff_orientation_(tiff_data, orientation);
     return tiff_data;
 }
 
@@ -655,6 +729,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -693,16 +771,13 @@ inline void write_image_tiff(const fs::path& filepath,
             std::size_t offset = x * 3 * bytes_per_sample;
 
             if (bundle.bit_depth == 8) {
-                scanline[offset + 0] =
-                    static_cast<uint8_t>(std::clamp(pixel[0] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 1] =
-                    static_cast<uint8_t>(std::clamp(pixel[1] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 2] =
-                    static_cast<uint8_t>(std::clamp(pixel[2] * 255.0f, 0.0f, 255.0f));
+                scanline[offset + 0] = float_to_integer<uint8_t>(pixel[0]);
+                scanline[offset + 1] = float_to_integer<uint8_t>(pixel[1]);
+                scanline[offset + 2] = float_to_integer<uint8_t>(pixel[2]);
             } else {
-                uint16_t r = static_cast<uint16_t>(std::clamp(pixel[0] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t g = static_cast<uint16_t>(std::clamp(pixel[1] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t b = static_cast<uint16_t>(std::clamp(pixel[2] * 65535.0f, 0.0f, 65535.0f));
+                uint16_t r = float_to_integer<uint16_t>(pixel[0]);
+                uint16_t g = float_to_integer<uint16_t>(pixel[1]);
+                uint16_t b = float_to_integer<uint16_t>(pixel[2]);
                 std::memcpy(&scanline[offset + 0], &r, 2);
                 std::memcpy(&scanline[offset + 2], &g, 2);
                 std::memcpy(&scanline[offset + 4], &b, 2);
@@ -713,6 +788,10 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    if (!TIFFFlush(tif.get())) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write file: " + filepath.string());
+    }
 }
 /**
  * @brief Writes a monochrome float image to a TIFF file with optional metadata.
@@ -728,6 +807,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -765,10 +848,9 @@ inline void write_image_tiff(const fs::path& filepath,
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
 
             if (bundle.bit_depth == 8) {
-                scanline[x] = static_cast<uint8_t>(std::clamp(pixel * 255.0f, 0.0f, 255.0f));
+                scanline[x] = float_to_integer<uint8_t>(pixel);
             } else {
-                uint16_t value =
-                    static_cast<uint16_t>(std::clamp(pixel * 65535.0f, 0.0f, 65535.0f));
+                uint16_t value = float_to_integer<uint16_t>(pixel);
                 std::memcpy(&scanline[x * 2], &value, 2);
             }
         }
@@ -777,6 +859,10 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    if (!TIFFFlush(tif.get())) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write file: " + filepath.string());
+    }
 }
 
 /**
@@ -796,6 +882,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    write_image_tiff(
+        filepath, ImageBundle<float>(bundle, std::move(mono_image)), description, artist);
 }
 } // namespace huira
-- 
2.43.0


From 231af0c4802a41138570a3232ade1b268bbf2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 12/50] fix: a star's irradiance per bin no longer includes the
 flux in the gaps between bins

---
 include/huira_impl/core/physics.ipp | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index cafa8fb..e4e58da 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -167,7 +167,6 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 {
     // Solar spectral shape (coarse, in arbitrary radiance units — only ratios matter):
     TSpectral solar_template = black_body<TSpectral>(5778.0, 100);
-    double solar_total = static_cast<double>(solar_template.total());
 
     // Fine-sample the solar spectrum convolved with V-band response:
     constexpr std::size_t N = 500;
@@ -182,30 +181,11 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
     }
     double solar_vband_weighted = integrate(vband_lambda, weighted);
 
-    auto bins = TSpectral::get_all_bins();
-    double lambda_min = bins[0].min_wavelength;
-    double lambda_max = bins[0].max_wavelength;
-    for (std::size_t i = 1; i < TSpectral::size(); ++i) {
-        if (bins[i].min_wavelength < lambda_min) {
-            lambda_min = bins[i].min_wavelength;
-        }
-        if (bins[i].max_wavelength > lambda_max) {
-            lambda_max = bins[i].max_wavelength;
-        }
-    }
-
-    auto full_lambda = linspace(lambda_min, lambda_max, N);
-    auto solar_full = plancks_law(5778.0, full_lambda);
-    double solar_full_integral = integrate(full_lambda, solar_full);
-
     // V-band observed photon flux:
     double observed_vband_flux = v_band_irradiance(visual_magnitude);
 
-    // Total photon flux across all wavelengths, assuming solar spectrum:
-    double total_flux = observed_vband_flux * solar_full_integral / solar_vband_weighted;
-
-    // Distribute across bins proportionally to solar template:
-    double scale = total_flux / solar_total;
+    // Scale the solar template so that its V-band part carries the observed flux:
+    double scale = observed_vband_flux / solar_vband_weighted;
 
     TSpectral photon_counts = solar_template * static_cast<float>(scale) * albedo;
     TSpectral irradiance = photon_counts * TSpectral::photon_energies();
-- 
2.43.0


From d2eb5e8b2673f512c65216fedd47364355cf267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 13/50] fix: recompute every camera quantity that depends on a
 changed setting and leave the camera unchanged when a setter throws

---
 include/huira/cameras/camera_model.hpp      |  16 +-
 include/huira_impl/cameras/camera_model.ipp | 161 +++++++++++++-------
 2 files changed, 122 insertions(+), 55 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..f284763 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
@@ -184,7 +192,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     float ry_;
 
     bool is_explicit_matrix_ = false;
+    bool is_explicit_cx_ = false;
+    bool is_explicit_cy_ = false;
     void compute_intrinsics_();
+    void update_optics_();
+    void update_defocus_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..a8431dc 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,22 +33,17 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
-
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    const float new_focal_length = focal_length.to_si_f();
+    if (new_focal_length <= 0 || std::isinf(new_focal_length) || std::isnan(new_focal_length)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(new_focal_length));
     }
 
+    is_explicit_matrix_ = false;
+    focal_length_ = new_focal_length;
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_optics_();
 }
 
 /**
@@ -63,8 +58,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -109,7 +103,14 @@ template <IsSensor<TSpectral> TSensor, typename... Args>
 void CameraModel<TSpectral>::set_sensor(Args&&... args)
 {
     sensor_ = std::make_unique<TSensor>(std::forward<Args>(args)...);
+    if (!is_explicit_cx_) {
+        cx_ = static_cast<float>(sensor_->resolution().x) * 0.5f;
+    }
+    if (!is_explicit_cy_) {
+        cy_ = static_cast<float>(sensor_->resolution().y) * 0.5f;
+    }
     compute_intrinsics_();
+    update_optics_();
 }
 
 /**
@@ -130,14 +131,9 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
                                                          std::optional<float> cx,
                                                          std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
     if (!pitch_y.has_value()) {
         pitch_y = pitch_x;
     }
-    sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
 
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
@@ -147,6 +143,15 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
         HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
     }
 
+    const auto previous_config = sensor_->config_;
+    try {
+        sensor_->set_resolution(resolution);
+        sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
+    } catch (...) {
+        sensor_->config_ = previous_config;
+        throw;
+    }
+
     if (final_cx < -static_cast<float>(resolution.x) ||
         final_cx > static_cast<float>(resolution.x) * 2.0f ||
         final_cy < -static_cast<float>(resolution.y) ||
@@ -157,8 +162,12 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
 
     cx_ = final_cx;
     cy_ = final_cy;
+    is_explicit_cx_ = cx.has_value();
+    is_explicit_cy_ = cy.has_value();
+    is_explicit_matrix_ = false;
 
     compute_intrinsics_();
+    update_optics_();
 }
 
 /**
@@ -179,20 +188,6 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
                                                         std::optional<float> cx,
                                                         std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (height.has_value()) {
-        sensor_->set_sensor_size(width, height.value());
-    } else {
-        // If height is not provided, assume square pixels and compute height from width and
-        // resolution
-        float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
-        float pixel_size_y = pixel_size_x; // Square pixels
-        sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
-    }
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -201,6 +196,22 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
         HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
     }
 
+    const auto previous_config = sensor_->config_;
+    try {
+        sensor_->set_resolution(resolution);
+
+        if (height.has_value()) {
+            sensor_->set_sensor_size(width, height.value());
+        } else {
+            float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
+            float pixel_size_y = pixel_size_x; // Square pixels
+            sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
+        }
+    } catch (...) {
+        sensor_->config_ = previous_config;
+        throw;
+    }
+
     if (final_cx < -static_cast<float>(resolution.x) ||
         final_cx > static_cast<float>(resolution.x) * 2.0f ||
         final_cy < -static_cast<float>(resolution.y) ||
@@ -211,8 +222,12 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
 
     cx_ = final_cx;
     cy_ = final_cy;
+    is_explicit_cx_ = cx.has_value();
+    is_explicit_cy_ = cy.has_value();
+    is_explicit_matrix_ = false;
 
     compute_intrinsics_();
+    update_optics_();
 }
 
 /**
@@ -251,22 +266,40 @@ void CameraModel<TSpectral>::set_intrinsics(float fx,
                                             const Resolution& resolution,
                                             units::Millimeter anchor_focal_length)
 {
-    is_explicit_matrix_ = true;
+    if (std::isnan(cx) || std::isnan(cy) || std::isinf(cx) || std::isinf(cy)) {
+        HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
+    }
 
+    const float anchor = anchor_focal_length.to_si_f();
+    if (anchor <= 0 || std::isinf(anchor) || std::isnan(anchor)) {
+        HUIRA_THROW_ERROR(
+            "CameraModel::set_intrinsics - Focal length must be a positive finite value: " +
+            std::to_string(anchor));
+    }
+    units::Meter px(anchor / fx);
+    units::Meter py(anchor / fy);
+
+    const auto previous_config = sensor_->config_;
+    try {
+        sensor_->set_resolution(resolution);
+        sensor_->set_pixel_pitch(px, py);
+        sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    } catch (...) {
+        sensor_->config_ = previous_config;
+        throw;
+    }
+
+    is_explicit_matrix_ = true;
+    is_explicit_cx_ = true;
+    is_explicit_cy_ = true;
     fx_ = fx;
     fy_ = fy;
     cx_ = cx;
     cy_ = cy;
-    sensor_->set_resolution(resolution);
-    focal_length_ = anchor_focal_length.to_si_f();
-
-    // Use the anchor to compute the pixel_pitch/size
-    units::Meter px(focal_length_ / fx_);
-    units::Meter py(focal_length_ / fy_);
-    sensor_->set_pixel_pitch(px, py);
-    sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    focal_length_ = anchor;
 
     compute_intrinsics_();
+    update_optics_();
 }
 
 /**
@@ -292,6 +325,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_optics_();
 }
 
 /**
@@ -317,11 +351,11 @@ void CameraModel<TSpectral>::set_psf(Args&&... args)
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::use_aperture_psf(int radius, int banks)
 {
-    use_aperture_psf_ = true;
     units::Meter f(focal_length_);
     units::Meter px(sensor_->pixel_pitch().x);
     units::Meter py(sensor_->pixel_pitch().y);
     psf_ = aperture_->make_psf(f, px, py, radius, banks);
+    use_aperture_psf_ = true;
 }
 
 /**
@@ -407,11 +441,7 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
         HUIRA_THROW_ERROR("CameraModel::set_focus_distance - Focus distance is too small");
     }
     d_ = focus_distance_;
-
-    units::Meter pitch_x(sensor_->pixel_pitch().x);
-    units::Meter pitch_y(sensor_->pixel_pitch().y);
-    this->aperture_->build_defocus_kernel(
-        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+    update_defocus_();
 }
 
 /**
@@ -575,12 +605,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_optics_();
 }
 
 /**
@@ -609,10 +634,40 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
 
+/**
+ * @brief Rebuild the blur kernels that depend on focal length, aperture and pixel pitch.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_optics_()
+{
+    if (use_aperture_psf_) {
+        units::Meter f(focal_length_);
+        units::Meter px(sensor_->pixel_pitch().x);
+        units::Meter py(sensor_->pixel_pitch().y);
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    update_defocus_();
+}
+
+/**
+ * @brief Rebuild the aperture's defocus kernel for the current focus distance.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_defocus_()
+{
+    units::Meter pitch_x(sensor_->pixel_pitch().x);
+    units::Meter pitch_y(sensor_->pixel_pitch().y);
+    this->aperture_->build_defocus_kernel(
+        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+}
+
 template <IsSpectral TSpectral>
 template <IsFloatingPoint TFloat>
 Vec3<TFloat> CameraModel<TSpectral>::pixel_to_direction_(const Pixel& pixel) const
-- 
2.43.0


From dadf84de7c6c7ded880d4927e29e56bc8b3efc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 14/50] fix: camera geometry: full-image view frustum,
 distortion field to the image edge, stable solid angles, OpenCV radial term,
 column-major intrinsic matrix

---
 include/huira/cameras/camera_model.hpp        |   1 -
 include/huira_impl/cameras/camera_model.ipp   | 141 ++++++++----------
 .../cameras/distortion/opencv_distortion.ipp  |   3 +-
 3 files changed, 65 insertions(+), 80 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f284763..b60f21f 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -209,7 +209,6 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     Image<float> pixel_solid_angles_;
     void compute_pixel_solid_angles_();
 
-    Vec3<double> tangent_(const Vec3<double>& p0, const Vec3<double>& p1) const;
     double triangle_solid_angle_(const Vec3<double>& c0,
                                  const Vec3<double>& c1,
                                  const Vec3<double>& c2) const;
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index a8431dc..fd3963e 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -243,8 +243,8 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
 {
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
@@ -508,8 +508,12 @@ Pixel CameraModel<TSpectral>::try_project_point(const Vec3<float>& point_camera_
     if (!in_fov(point_camera_coords)) {
         return Pixel{NaN, NaN};
     }
+    const Pixel pixel = project_point(point_camera_coords);
+    if (!(pixel[0] >= 0.f && pixel[0] < rx_ && pixel[1] >= 0.f && pixel[1] < ry_)) {
+        return Pixel{NaN, NaN};
+    }
 
-    return project_point(point_camera_coords);
+    return pixel;
 }
 
 template <IsSpectral TSpectral>
@@ -520,8 +524,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -549,8 +553,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel) const
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -673,19 +677,17 @@ template <IsFloatingPoint TFloat>
 Vec3<TFloat> CameraModel<TSpectral>::pixel_to_direction_(const Pixel& pixel) const
 {
     // Invert the intrinsic matrix
-    float nx = (pixel[0] - cx_) / fx_;
-    float ny = (pixel[1] - cy_) / fy_;
-    Pixel normalized{nx, ny};
-
-    // Undistort
+    TFloat dir_x =
+        (static_cast<TFloat>(pixel[0]) - static_cast<TFloat>(cx_)) / static_cast<TFloat>(fx_);
+    TFloat dir_y =
+        (static_cast<TFloat>(pixel[1]) - static_cast<TFloat>(cy_)) / static_cast<TFloat>(fy_);
     if (distortion_) {
-        normalized = distortion_->undistort(normalized);
+        const Pixel undistorted =
+            distortion_->undistort(Pixel{static_cast<float>(dir_x), static_cast<float>(dir_y)});
+        dir_x = static_cast<TFloat>(undistorted[0]);
+        dir_y = static_cast<TFloat>(undistorted[1]);
     }
 
-    // Build direction in camera coordinates
-    TFloat dir_x = static_cast<TFloat>(normalized[0]);
-    TFloat dir_y = static_cast<TFloat>(normalized[1]);
-
     Vec3<TFloat> direction;
     if (blender_convention_) {
         direction = Vec3<TFloat>{dir_x, -dir_y, static_cast<TFloat>(-1)};
@@ -699,14 +701,14 @@ Vec3<TFloat> CameraModel<TSpectral>::pixel_to_direction_(const Pixel& pixel) con
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::compute_distortion_field_()
 {
+    // One node per pixel corner, so that the field spans the whole image plane [0, rx] x [0, ry]
     Resolution res = sensor_->resolution();
-
-    distortion_field_ = Image<Vec3<float>>(res, Vec3<float>{0, 0, 0});
-
-    for (int x = 0; x < res.x; ++x) {
-        for (int y = 0; y < res.y; ++y) {
+    Resolution nodes{res.x + 1, res.y + 1};
+    distortion_field_ = Image<Vec3<float>>(nodes, Vec3<float>{0, 0, 0});
+    for (int y = 0; y < nodes.y; ++y) {
+        for (int x = 0; x < nodes.x; ++x) {
             Pixel pixel{static_cast<float>(x), static_cast<float>(y)};
-            distortion_field_(x, y) = glm::normalize(pixel_to_direction_<float>(pixel));
+            distortion_field_(x, y) = pixel_to_direction_<float>(pixel);
         }
     }
 }
@@ -738,35 +740,17 @@ void CameraModel<TSpectral>::compute_pixel_solid_angles_()
     }
 }
 
-template <IsSpectral TSpectral>
-Vec3<double> CameraModel<TSpectral>::tangent_(const Vec3<double>& p0, const Vec3<double>& p1) const
-{
-    Vec3<double> p = p1 - p0;
-    Vec3<double> r = glm::cross(p0, p);
-    Vec3<double> t = glm::cross(r, p0);
-    return glm::normalize(t);
-}
-
 template <IsSpectral TSpectral>
 double CameraModel<TSpectral>::triangle_solid_angle_(const Vec3<double>& c0,
                                                      const Vec3<double>& c1,
                                                      const Vec3<double>& c2) const
 {
     // Compute interior angles using tangent vectors
-    Vec3<double> t01 = tangent_(c0, c1);
-    Vec3<double> t02 = tangent_(c0, c2);
-    double angle0 = std::acos(glm::dot(t01, t02));
-
-    Vec3<double> t10 = tangent_(c1, c0);
-    Vec3<double> t12 = tangent_(c1, c2);
-    double angle1 = std::acos(glm::dot(t10, t12));
-
-    Vec3<double> t20 = tangent_(c2, c0);
-    Vec3<double> t21 = tangent_(c2, c1);
-    double angle2 = std::acos(glm::dot(t20, t21));
-
-    // Apply Girard's theorem
-    return angle0 + angle1 + angle2 - PI<double>();
+    // Van Oosterom and Strackee; the triple product is taken over edge vectors, which keeps it
+    // accurate for the very small triangles of a narrow field of view.
+    const double triple = glm::dot(c0, glm::cross(c1 - c0, c2 - c0));
+    const double denominator = 1.0 + glm::dot(c0, c1) + glm::dot(c1, c2) + glm::dot(c2, c0);
+    return 2.0 * std::atan2(std::abs(triple), denominator);
 }
 
 template <IsSpectral TSpectral>
@@ -782,44 +766,45 @@ void CameraModel<TSpectral>::compute_frustum_()
         ydir = Vec3<float>{0, -1, 0};
     }
 
-    // Initialize the frustum side planes:
-    Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
-
-    Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
-
-    Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
-
-    Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
-
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
-        float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
-            extrema = direction;
-            min_dot = d;
-        }
+    // Slopes (x/depth and y/depth) of the image border, out to the far edge of the last pixels
+    constexpr float inf = std::numeric_limits<float>::infinity();
+    float left = inf;
+    float right = -inf;
+    float top = inf;
+    float bottom = -inf;
+    auto update = [&](int i, int j) {
+        Vec3<float> direction =
+            pixel_to_direction_<float>(Pixel{static_cast<float>(i), static_cast<float>(j)});
+        float depth = glm::dot(direction, zdir);
+        float slope_x = glm::dot(direction, xdir) / depth;
+        float slope_y = glm::dot(direction, ydir) / depth;
+        left = std::min(left, slope_x);
+        right = std::max(right, slope_x);
+        top = std::min(top, slope_y);
+        bottom = std::max(bottom, slope_y);
     };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    for (int i = 0; i <= res.x; ++i) {
+        update(i, 0);
+        update(i, res.y);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 0; j <= res.y; ++j) {
+        update(0, j);
+        update(res.x, j);
     }
 
+    // Widen by the rounding of the slopes, so that the border itself is inside
+    auto widen = [](float slope) { return 1e-6f * (1.f + std::abs(slope)); };
+    left -= widen(left);
+    right += widen(right);
+    top -= widen(top);
+    bottom += widen(bottom);
+
     // Form the frustum planes:
-    Vec3<float> left_normal = glm::normalize(glm::cross(ydir, left_extrema));
-    Vec3<float> right_normal = glm::normalize(glm::cross(right_extrema, ydir));
-    Vec3<float> top_normal = glm::normalize(glm::cross(top_extrema, xdir));
-    Vec3<float> bottom_normal = glm::normalize(glm::cross(xdir, bottom_extrema));
+    Vec3<float> left_normal = glm::normalize(xdir - left * zdir);
+    Vec3<float> right_normal = glm::normalize(right * zdir - xdir);
+    Vec3<float> top_normal = glm::normalize(ydir - top * zdir);
+    Vec3<float> bottom_normal = glm::normalize(bottom * zdir - ydir);
 
     view_frustum_ =
         Frustum<TSpectral>({zdir, left_normal, right_normal, top_normal, bottom_normal});
diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..e650bc6 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -58,7 +58,8 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             ? std::copysign(static_cast<TFloat>(kMinDenominator), denominator_raw)
             : denominator_raw;
 
-    const TFloat radial_factor = numerator / denominator;
+    // Only the displacement: the undistorted coordinates are added by the caller
+    const TFloat radial_factor = numerator / denominator - TFloat{1};
 
     // Tangential and thin prism distortion components
     const TFloat xy = x * y;
-- 
2.43.0


From 65013940a749c435a02526a1fbfbe3b9cefcca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 15/50] fix: defocus and PSF kernels: blur radius per axis,
 kernels cover the shifted disc, PSF table covers every sub-pixel offset

---
 include/huira/cameras/apertures/aperture.hpp       |  7 +++++--
 .../huira/cameras/apertures/circular_aperture.hpp  |  3 ++-
 include/huira_impl/cameras/apertures/aperture.ipp  | 14 +++++++++-----
 .../cameras/apertures/circular_aperture.ipp        | 12 ++++++++++--
 include/huira_impl/cameras/psfs/psf.ipp            |  2 +-
 5 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/huira/cameras/apertures/aperture.hpp b/include/huira/cameras/apertures/aperture.hpp
index 244f425..7fd3405 100644
--- a/include/huira/cameras/apertures/aperture.hpp
+++ b/include/huira/cameras/apertures/aperture.hpp
@@ -50,7 +50,9 @@ class Aperture {
 
   protected:
     struct PolyphaseCache {
-        float radius = 0.f;
+        float radius = 0.f;   // Larger of radius_x and radius_y
+        float radius_x = 0.f; // Blur radius in pixel columns
+        float radius_y = 0.f; // Blur radius in pixel rows
         int half_extent = 0;
         int banks = 0;
         int dim = 0;
@@ -58,7 +60,8 @@ class Aperture {
     } defocus_cache_;
 
     virtual void rasterize_kernel_(Image<float>& kernel,
-                                   float radius_pixels,
+                                   float radius_x,
+                                   float radius_y,
                                    float offset_x,
                                    float offset_y) = 0;
 
diff --git a/include/huira/cameras/apertures/circular_aperture.hpp b/include/huira/cameras/apertures/circular_aperture.hpp
index d339528..d5960cf 100644
--- a/include/huira/cameras/apertures/circular_aperture.hpp
+++ b/include/huira/cameras/apertures/circular_aperture.hpp
@@ -41,7 +41,8 @@ class CircularAperture : public Aperture<TSpectral> {
 
   protected:
     void rasterize_kernel_(Image<float>& kernel,
-                           float radius_pixels,
+                           float radius_x,
+                           float radius_y,
                            float offset_x,
                            float offset_y) override;
 
diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index 298e915..9b1618d 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -18,9 +18,10 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     // Physical radius of the blur spot on the sensor
     const float blur_radius_meters = abs_defocus * f * bounding_r;
 
-    // Convert to pixels (use the smaller pitch for conservative sizing)
-    const float pitch = std::min(pitch_x.to_si_f(), pitch_y.to_si_f());
-    const float blur_radius_pixels = blur_radius_meters / pitch;
+    // Convert to pixels along each axis
+    const float blur_radius_x = blur_radius_meters / pitch_x.to_si_f();
+    const float blur_radius_y = blur_radius_meters / pitch_y.to_si_f();
+    const float blur_radius_pixels = std::max(blur_radius_x, blur_radius_y);
     if (blur_radius_pixels < 0.5f) {
         // Blur is less than half a pixel - treat as in focus
         defocus_cache_.radius = 0.f;
@@ -31,7 +32,9 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     }
 
     defocus_cache_.radius = blur_radius_pixels;
-    defocus_cache_.half_extent = std::max(1, static_cast<int>(std::ceil(blur_radius_pixels)));
+    defocus_cache_.radius_x = blur_radius_x;
+    defocus_cache_.radius_y = blur_radius_y;
+    defocus_cache_.half_extent = static_cast<int>(std::ceil(blur_radius_pixels + 1.5f));
     defocus_cache_.banks = banks;
     defocus_cache_.dim = 2 * defocus_cache_.half_extent + 1;
 
@@ -73,7 +76,8 @@ void Aperture<TSpectral>::generate_polyphase_data_()
             auto& kernel = defocus_cache_.kernels[static_cast<std::size_t>(j * banks + i)];
             kernel.fill(0.f);
 
-            rasterize_kernel_(kernel, defocus_cache_.radius, offset_x, offset_y);
+            rasterize_kernel_(
+                kernel, defocus_cache_.radius_x, defocus_cache_.radius_y, offset_x, offset_y);
 
             // normalize so kernel sums to 1
             float sum = 0.f;
diff --git a/include/huira_impl/cameras/apertures/circular_aperture.ipp b/include/huira_impl/cameras/apertures/circular_aperture.ipp
index 8069d0c..0b4726c 100644
--- a/include/huira_impl/cameras/apertures/circular_aperture.ipp
+++ b/include/huira_impl/cameras/apertures/circular_aperture.ipp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <memory>
 
@@ -119,7 +120,8 @@ units::Meter CircularAperture<TSpectral>::get_bounding_radius() const
 
 template <IsSpectral TSpectral>
 void CircularAperture<TSpectral>::rasterize_kernel_(Image<float>& kernel,
-                                                    float radius_pixels,
+                                                    float radius_x,
+                                                    float radius_y,
                                                     float offset_x,
                                                     float offset_y)
 {
@@ -134,9 +136,15 @@ void CircularAperture<TSpectral>::rasterize_kernel_(Image<float>& kernel,
             float dy = (static_cast<float>(y) + 0.5f) - cy;
             float dist = std::sqrt(dx * dx + dy * dy);
 
+            // Distance from the disc center to its edge along the same direction. The disc is an
+            // ellipse in pixels when the pixel pitches differ.
+            float rel =
+                std::sqrt((dx / radius_x) * (dx / radius_x) + (dy / radius_y) * (dy / radius_y));
+            float edge = (rel > 0.f) ? dist / rel : std::max(radius_x, radius_y);
+
             // Antialiased coverage: fully inside, fully outside,
             // or linear ramp over a 1-pixel transition band at the edge
-            float coverage = std::clamp(radius_pixels - dist + 0.5f, 0.f, 1.f);
+            float coverage = std::clamp(edge - dist + 0.5f, 0.f, 1.f);
 
             kernel(x, y) = coverage;
         }
diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index d1ba086..d496712 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -80,7 +80,7 @@ void PSF<TSpectral>::generate_polyphase_data_()
     std::vector<TSpectral> lut_data(static_cast<std::size_t>(lut_res) *
                                     static_cast<std::size_t>(lut_res));
 
-    float max_radius = static_cast<float>(cache_.radius) + 1.0f;
+    float max_radius = static_cast<float>(cache_.radius) + 1.5f;
     float lut_scale_inv = 1.0f / static_cast<float>(lut_res - 1);
 
     tbb::parallel_for(
-- 
2.43.0


From a149abdebeba39e3013704687861db55a281f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 16/50] fix: scene object ids stay unique when objects are made
 by several threads

---
 include/huira/scene/scene_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/scene/scene_object.hpp b/include/huira/scene/scene_object.hpp
index 25f4a6c..599b729 100644
--- a/include/huira/scene/scene_object.hpp
+++ b/include/huira/scene/scene_object.hpp
@@ -88,7 +88,7 @@ class SceneObject : public std::enable_shared_from_this<TDerived> {
     std::string name_ = ""; // Only NameRegistry should modify this
 
     std::uint64_t id_ = 0;
-    static inline std::uint64_t next_id_ = 0;
+    static inline std::atomic<std::uint64_t> next_id_{0};
 
     friend class NameRegistry<TDerived>;
 };
-- 
2.43.0


From a75e55be1c084555617dbc4d999c1f9370e41853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 17/50] fix: sensor read-out: negative power and zero-noise
 settings are defined, generator per thread, constructor and decibel gain
 validate

---
 .../huira/cameras/sensors/sensor_model.hpp    |  9 ++++++--
 .../cameras/sensors/sensor_model.ipp          | 23 +++++++++----------
 .../cameras/sensors/simple_sensor.ipp         | 21 +++++++++++++----
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/include/huira/cameras/sensors/sensor_model.hpp b/include/huira/cameras/sensors/sensor_model.hpp
index f036707..ddbb2fc 100644
--- a/include/huira/cameras/sensors/sensor_model.hpp
+++ b/include/huira/cameras/sensors/sensor_model.hpp
@@ -47,7 +47,7 @@ struct SensorConfig {
     /**
      * @brief Sets the gain in dB for the sensor.
      * @param gain_db The gain in decibels.
-     * @throws std::runtime_error if the value is not finite.
+     * @throws std::runtime_error if the value is not finite or outside the representable gains.
      */
     void set_gain_db(float gain_db)
     {
@@ -55,7 +55,12 @@ struct SensorConfig {
             HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain in dB must be a finite value: " +
                               std::to_string(gain_db) + " dB");
         }
-        gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        const float new_gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        if (!std::isnormal(new_gain)) {
+            HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain is not representable: " +
+                              std::to_string(gain_db) + " dB");
+        }
+        gain = new_gain;
     }
     /**
      * @brief Returns the gain in dB for the sensor.
diff --git a/include/huira_impl/cameras/sensors/sensor_model.ipp b/include/huira_impl/cameras/sensors/sensor_model.ipp
index ae6993f..cdb5c27 100644
--- a/include/huira_impl/cameras/sensors/sensor_model.ipp
+++ b/include/huira_impl/cameras/sensors/sensor_model.ipp
@@ -8,22 +8,21 @@ namespace huira {
  * @brief Constructs a SensorModel with the given configuration.
  *
  * @param config The sensor configuration parameters.
- * @throws std::runtime_error if the resolution or pixel pitch is invalid.
+ * @throws std::runtime_error if any parameter is one its setter rejects.
  */
 template <IsSpectral TSpectral>
 SensorModel<TSpectral>::SensorModel(SensorConfig<TSpectral> config) : config_{config}
 {
-    if (config.resolution.x < 0 || config.resolution.y < 0) {
-        HUIRA_THROW_ERROR("SensorModel::SensorModel - Invalid resolution: " +
-                          std::to_string(config.resolution.x) + "x" +
-                          std::to_string(config.resolution.y));
-    }
-
-    if (config.pitch_x.to_si() <= 0 || config.pitch_y.to_si() <= 0) {
-        HUIRA_THROW_ERROR("SensorModel::SensorModel - Pixel pitch must be positive: " +
-                          std::to_string(config.pitch_x.to_si()) + "m x " +
-                          std::to_string(config.pitch_y.to_si()) + "m");
-    }
+    set_resolution(config.resolution);
+    set_pixel_pitch(config.pitch_x, config.pitch_y);
+    set_quantum_efficiency(config.quantum_efficiency);
+    set_full_well_capacity(config.full_well_capacity);
+    set_read_noise(config.read_noise);
+    set_dark_current(config.dark_current);
+    set_bias_level_dn(config.bias_level_dn);
+    set_bit_depth(config.bit_depth);
+    set_gain_adu(config.gain);
+    set_unity_db(config.unity_db);
 }
 
 /**
diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..fc64394 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <random>
 
@@ -30,14 +32,22 @@ inline float noise_and_adc(float signal_e,
                            std::normal_distribution<float>& read_noise_dist)
 {
 
+    // Light cannot remove electrons (PSF convolution can leave tiny negative power)
+    signal_e = std::max(signal_e, 0.f);
+
     // Shot Noise (Approximation of Poisson):
     float accumulated_e = signal_e + dark_e;
 
     float bias = 0.f;
     if (config.simulate_noise) {
-        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(accumulated_e));
-        accumulated_e += shot_dist(rng);
-        accumulated_e += read_noise_dist(rng);
+        // A normal distribution needs a positive standard deviation
+        if (accumulated_e > 0.f) {
+            std::normal_distribution<float> shot_dist(0.0f, std::sqrt(accumulated_e));
+            accumulated_e += shot_dist(rng);
+        }
+        if (config.read_noise > 0.f) {
+            accumulated_e += read_noise_dist(rng);
+        }
         bias = config.bias_level_dn;
     }
 
@@ -72,8 +82,9 @@ void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second
     float dt = static_cast<float>(exposure_time.to_si());
 
     // TODO Move this somewhere else?
-    static std::mt19937 rng(1);
-    std::normal_distribution<float> read_noise_dist(0.0f, this->config_.read_noise);
+    static thread_local std::mt19937 rng(1);
+    std::normal_distribution<float> read_noise_dist(
+        0.0f, this->config_.read_noise > 0.f ? this->config_.read_noise : 1.f);
 
     const TSpectral photon_energy = TSpectral::photon_energies();
     float max_dn = std::pow(2.f, static_cast<float>(this->config_.bit_depth)) - 1.f;
-- 
2.43.0


From e653c963c2f22b7e50cd97e500c2905a8b894c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 18/50] fix: interval sample spacing in double precision: large
 sample counts drifted by float rounding of the divisor

---
 include/huira/core/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/core/interval.hpp b/include/huira/core/interval.hpp
index 3de0e45..2f2ed47 100644
--- a/include/huira/core/interval.hpp
+++ b/include/huira/core/interval.hpp
@@ -83,7 +83,7 @@ struct Interval {
             return {this->center()};
         } else {
             std::vector<Time> result(N);
-            units::Second dt = (this->end - this->start) / static_cast<float>(N - 1);
+            units::Second dt = (this->end - this->start) / static_cast<double>(N - 1);
             for (std::size_t i = 0; i < N; ++i) {
                 result[i] = start + (i * dt);
             }
-- 
2.43.0


From b2a8f2556a80764a1fadc5b321293bae33844018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 19/50] fix: sxform rotated the angular velocity although
 xf2rav already returns it in the FROM frame

---
 include/huira_impl/core/spice.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..a1a2641 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -357,12 +357,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
-                                 static_cast<T>(angular_velocity[1]),
-                                 static_cast<T>(angular_velocity[2])};
+    // xf2rav returns the angular velocity in the FROM (parent) frame
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
+                                  static_cast<T>(angular_velocity[1]),
+                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From 082937d9927cb7eda7dc9043bc8e41e65c4a1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 20/50] fix: Kepler orbits passed the semi-major axis as
 periapsis distance; nadir callbacks computed attitude in float with zero
 angular velocity

---
 .../scene/state_callbacks/keplerian_orbit.hpp    |  3 ++-
 .../huira/scene/state_callbacks/nadir_point.hpp  | 16 ++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/huira/scene/state_callbacks/keplerian_orbit.hpp b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
index addb655..b0ae21e 100644
--- a/include/huira/scene/state_callbacks/keplerian_orbit.hpp
+++ b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
@@ -18,7 +18,8 @@ struct KeplerianOrbitCallback : public PositionCallback {
                            const Time& epoch,
                            double mu)
     {
-        elements_[0] = a.to_si() / 1000.0;
+        // SPICE conic elements start with the periapsis distance, in km
+        elements_[0] = a.to_si() * (1.0 - e) / 1000.0;
         elements_[1] = e;
         elements_[2] = i.to_si();
         elements_[3] = raan.to_si();
diff --git a/include/huira/scene/state_callbacks/nadir_point.hpp b/include/huira/scene/state_callbacks/nadir_point.hpp
index 1602732..3b9931c 100644
--- a/include/huira/scene/state_callbacks/nadir_point.hpp
+++ b/include/huira/scene/state_callbacks/nadir_point.hpp
@@ -11,13 +11,13 @@ struct ZUpYForwardCallback : public RotationCallback {
     {
         (void)epoch;
 
-        Vec3<float> z_axis = glm::normalize(position);
-        Vec3<float> y_axis = glm::normalize(velocity);
-        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
+        Vec3<double> z_axis = glm::normalize(position);
+        Vec3<double> y_axis = glm::normalize(velocity);
+        Vec3<double> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
         y_axis = glm::normalize(glm::cross(z_axis, x_axis));
 
         this->rotation = Rotation<double>::from_basis_vectors(x_axis, y_axis, z_axis);
-        this->angular_velocity = Vec3<double>{0.0, 0.0, 0.0};
+        this->angular_velocity = glm::cross(position, velocity) / glm::dot(position, position);
     }
 };
 
@@ -27,13 +27,13 @@ struct ZDownYForwardCallback : public RotationCallback {
     {
         (void)epoch;
 
-        Vec3<float> z_axis = -glm::normalize(position);
-        Vec3<float> y_axis = glm::normalize(velocity);
-        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
+        Vec3<double> z_axis = -glm::normalize(position);
+        Vec3<double> y_axis = glm::normalize(velocity);
+        Vec3<double> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
         y_axis = glm::normalize(glm::cross(z_axis, x_axis));
 
         this->rotation = Rotation<double>::from_basis_vectors(x_axis, y_axis, z_axis);
-        this->angular_velocity = Vec3<double>{0.0, 0.0, 0.0};
+        this->angular_velocity = glm::cross(position, velocity) / glm::dot(position, position);
     }
 };
 } // namespace huira
-- 
2.43.0


From e54ec726cc78e0921bb79e493cc7b176528003de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 21/50] fix: mixed SPICE/local states double-counted parent
 motion; body rates, set_manual_transform, replaced state callbacks and
 rotation getters used the wrong frame or mode

---
 include/huira_impl/scene/node.ipp | 54 ++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..327e742 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
@@ -223,6 +224,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
 
     this->local_transform_ = transform;
     this->body_frame_rates_ = false;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
 }
 
 /**
@@ -453,25 +458,24 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
     }
     Transform<double> parent_ssb = parent_->get_ssb_transform_(epoch, t_obs, dt);
 
-    // Full transform callback: single source defines the entire local state
-    if (position_mode_ == TransformMode::TRANSFORM_CALLBACK &&
+    // A state callback drives whichever of position and rotation still use it
+    Transform<double> local{};
+    if (position_mode_ == TransformMode::TRANSFORM_CALLBACK ||
         rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
         transform_callback_->evaluate(t_emit);
-        Transform<double> local = transform_callback_->state;
-        local.scale = this->get_static_scale();
-        Transform<double> ssb_state = parent_ssb * local;
-        return ssb_state;
+        local = transform_callback_->state;
     }
 
-    // Mixed case - Step 1:
-    Transform<double> local{};
+    // Step 1: SPICE states are global, and are converted to the parent's (moving) frame
+    Transform<double> spice_ssb{};
     if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
-        // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        spice_ssb.position = pos;
+        spice_ssb.velocity = vel;
+        const Transform<double> relative = parent_ssb.inverse() * spice_ssb;
+        local.position = relative.position;
+        local.velocity = relative.velocity;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
@@ -480,9 +484,11 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        spice_ssb.rotation = rotation;
+        spice_ssb.angular_velocity = ang_vel;
+        const Transform<double> relative = parent_ssb.inverse() * spice_ssb;
+        local.rotation = relative.rotation;
+        local.angular_velocity = relative.angular_velocity;
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
@@ -504,6 +510,14 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
     local.scale = this->get_static_scale();
 
     Transform<double> ssb_state = parent_ssb * local;
+    if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
+        ssb_state.position = spice_ssb.position;
+        ssb_state.velocity = spice_ssb.velocity;
+    }
+    if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
+        ssb_state.rotation = spice_ssb.rotation;
+        ssb_state.angular_velocity = spice_ssb.angular_velocity;
+    }
     return ssb_state;
 }
 
@@ -566,7 +580,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Body rates are given along the rotating axes; states carry parent-frame components
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_at_time.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
@@ -587,7 +603,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -612,7 +628,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -633,7 +649,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From 97704376e92d7821eacbde8b53d929f81faf2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 22/50] fix: delete_instance, delete_subframe and deletes of
 instanced assets always threw; renames to the current or another scene's name
 and assets inside models were mishandled

---
 include/huira/assets/model.hpp             |  4 ++++
 include/huira/scene/frame_node.hpp         |  2 ++
 include/huira/scene/name_registry.hpp      |  2 ++
 include/huira/scene/node.hpp               |  1 +
 include/huira_impl/scene/frame_node.ipp    | 15 +++++++++++-
 include/huira_impl/scene/name_registry.ipp | 28 +++++++++++++++++++---
 include/huira_impl/scene/node.ipp          | 15 ++++++++++++
 include/huira_impl/scene/scene.ipp         | 10 ++++++++
 8 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..6848daf 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -16,6 +16,9 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
+template <IsSpectral TSpectral>
+class Scene;
+
 template <IsSpectral TSpectral>
 class SceneView;
 
@@ -60,6 +63,7 @@ class Model : public SceneObject<Model<TSpectral>> {
 
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
+    friend class Scene<TSpectral>;
     friend class ModelLoader<TSpectral>;
     friend class SceneView<TSpectral>;
 };
diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index 3777212..39ea053 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -64,6 +64,8 @@ class FrameNode : public Node<TSpectral> {
   protected:
     std::vector<std::shared_ptr<Node<TSpectral>>> children_;
 
+    void release_(Scene<TSpectral>* scene) override;
+
     bool position_must_be_spice_() const override;
     bool rotation_must_be_spice_() const override;
 
diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..8e9527e 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -21,6 +21,8 @@ class NameRegistry {
     void remove(std::shared_ptr<T> object);
     void set_name(std::shared_ptr<T> object, std::string name);
 
+    bool contains(const std::shared_ptr<T>& object) const;
+
     std::size_t size() const { return objects_.size(); }
 
     auto begin() { return objects_.begin(); }
diff --git a/include/huira/scene/node.hpp b/include/huira/scene/node.hpp
index db4b7f5..0b129e7 100644
--- a/include/huira/scene/node.hpp
+++ b/include/huira/scene/node.hpp
@@ -152,6 +152,7 @@ class Node : public SceneObject<Node<TSpectral>> {
     Scene<TSpectral>* scene_;
     Node<TSpectral>* parent_ = nullptr;
 
+    virtual void release_(Scene<TSpectral>* scene);
     void set_parent_(Node<TSpectral>* parent) { parent_ = parent; }
 
     std::pair<const Node<TSpectral>*, Transform<double>> find_spice_origin_ancestor_() const;
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..d97fa00 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,8 +55,8 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
         children_.erase(it);
+        child->release_(this->scene_);
     }
 }
 
@@ -148,6 +148,19 @@ FrameNode<TSpectral>::new_instance(CameraModel<TSpectral>* camera_model)
 // === Protected Members === //
 // ========================= //
 
+/**
+ * @brief Detach this frame and all of its descendants from the scene graph.
+ * @param scene Scene whose registry may hold the nodes
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::release_(Scene<TSpectral>* scene)
+{
+    for (const auto& child : children_) {
+        child->release_(scene);
+    }
+    Node<TSpectral>::release_(scene);
+}
+
 /**
  * @brief Check if manual position is allowed (no child uses SPICE).
  * @return bool True if allowed
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..6f079c8 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -16,6 +17,12 @@ namespace huira {
 template <typename T>
 void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 {
+    if (!object) {
+        HUIRA_THROW_ERROR("NameRegistry - Attempted to add a null object");
+    }
+    if (contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " already exists in the scene");
+    }
     if (name.empty()) {
         name = object->type() + "." + std::to_string(object->id());
     }
@@ -25,6 +32,7 @@ void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 
     name_registry_[name] = object;
     object->name_ = name;
+    object->set_scene_owned(true);
 
     HUIRA_LOG_INFO("Scene - Added: " + object->get_info());
 }
@@ -57,18 +65,32 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
-    std::string old_name = object->name();
+    if (!contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
+    }
 
-    if (new_name == old_name) {
+    std::string old_name = object->name();
+    if (name == old_name) {
         return;
     }
+    std::string new_name = make_unique_name_(name);
 
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
     object->name_ = new_name;
 }
 
+/**
+ * @brief Check whether an object is in the registry.
+ * @param object Shared pointer to object
+ * @return bool True if the object is registered
+ */
+template <typename T>
+bool NameRegistry<T>::contains(const std::shared_ptr<T>& object) const
+{
+    return std::find(objects_.begin(), objects_.end(), object) != objects_.end();
+}
+
 /**
  * @brief Lookup an object by name.
  * @param name Name to search for
diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 327e742..36bfaed 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -850,4 +850,19 @@ NodeHandle<TSpectral, TParentNode> Node<TSpectral>::get_parent_as() const
 
     return NodeHandle<TSpectral, TParentNode>(typed_parent_shared);
 }
+
+/**
+ * @brief Detach this node from the scene graph, invalidating any handles to it.
+ * @param scene Scene whose registry may hold the node
+ */
+template <IsSpectral TSpectral>
+void Node<TSpectral>::release_(Scene<TSpectral>* scene)
+{
+    auto self = this->shared_from_this();
+    if (scene && scene->node_registry_.contains(self)) {
+        scene->node_registry_.remove(self);
+    }
+    this->set_scene_owned(false);
+    parent_ = nullptr;
+}
 } // namespace huira
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..b101d71 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -785,6 +785,9 @@ void Scene<TSpectral>::delete_model(const ModelHandle<TSpectral>& model_handle)
     auto model_shared = model_handle.get();
     prune_graph_references_(model_shared.get());
     models_.remove(model_shared);
+    if (model_shared->root_node_) {
+        model_shared->root_node_->release_(this);
+    }
 }
 
 template <IsSpectral TSpectral>
@@ -1149,6 +1152,13 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+
+    // Model graphs hold their own instances of the scene's assets
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
-- 
2.43.0


From dfa9b57ebcd8589987cb54808b5b8d3f639401cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 23/50] fix: Cook-Torrance gave infinite or NaN values for
 smooth surfaces and used the separable instead of the documented
 height-correlated Smith term

---
 .../materials/bsdfs/cook_torrance_bsdf.hpp    |  3 ++-
 .../materials/bsdfs/cook_torrance_bsdf.ipp    | 25 +++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp b/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
index 17a9406..974f40d 100644
--- a/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
+++ b/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
@@ -77,7 +77,8 @@ class CookTorranceBSDF final : public BSDF<TSpectral> {
     /// Minimum roughness to prevent numerical singularity at perfect specularity.
     static constexpr float min_roughness_ = 0.01f;
 
-    [[nodiscard]] static float ggx_D(float n_dot_h, float alpha2) noexcept;
+    [[nodiscard]] static float
+    ggx_D(const Vec3<float>& n, const Vec3<float>& h, float alpha2) noexcept;
 
     [[nodiscard]] static float smith_G1(float n_dot_v, float alpha2) noexcept;
 
diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index 756a47b..c9b07ba 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -42,10 +42,9 @@ TSpectral CookTorranceBSDF<TSpectral>::eval(const Vec3<float>& wo,
 
     // Specular (Cook-Torrance microfacet with GGX NDF)
     Vec3<float> h = glm::normalize(wo + wi);
-    const float n_dot_h = std::max(glm::dot(n, h), 0.0f);
     const float wo_dot_h = std::max(glm::dot(wo, h), 0.0f);
 
-    const float D = ggx_D(n_dot_h, alpha2);
+    const float D = ggx_D(n, h, alpha2);
     const float G = smith_G2(n_dot_wo, n_dot_wi, alpha2);
     const TSpectral F = schlick_fresnel(wo_dot_h, f0);
 
@@ -152,10 +151,9 @@ float CookTorranceBSDF<TSpectral>::pdf(const Vec3<float>& wo,
     const float alpha2 = alpha * alpha;
 
     Vec3<float> h = glm::normalize(wo + wi);
-    const float n_dot_h = std::max(glm::dot(n, h), 0.0f);
 
     // Specular PDF: GGX VNDF
-    const float D = ggx_D(n_dot_h, alpha2);
+    const float D = ggx_D(n, h, alpha2);
     const float G1 = smith_G1(n_dot_wo, alpha2);
     const float spec_pdf = D * G1 / (4.0f * n_dot_wo);
 
@@ -168,10 +166,14 @@ float CookTorranceBSDF<TSpectral>::pdf(const Vec3<float>& wo,
 }
 
 template <IsSpectral TSpectral>
-float CookTorranceBSDF<TSpectral>::ggx_D(float n_dot_h, float alpha2) noexcept
+float CookTorranceBSDF<TSpectral>::ggx_D(const Vec3<float>& n,
+                                         const Vec3<float>& h,
+                                         float alpha2) noexcept
 {
-    const float cos2 = n_dot_h * n_dot_h;
-    const float denom = cos2 * (alpha2 - 1.0f) + 1.0f;
+    // sin^2 comes from the cross product: 1 - cos^2 cancels completely for smooth surfaces
+    const Vec3<float> n_cross_h = glm::cross(n, h);
+    const float sin2 = glm::dot(n_cross_h, n_cross_h);
+    const float denom = alpha2 * (1.0f - sin2) + sin2;
     return alpha2 / (std::numbers::pi_v<float> * denom * denom);
 }
 
@@ -179,21 +181,24 @@ template <IsSpectral TSpectral>
 float CookTorranceBSDF<TSpectral>::smith_G1(float n_dot_v, float alpha2) noexcept
 {
     const float cos2 = n_dot_v * n_dot_v;
-    const float tan2 = (1.0f - cos2) / std::max(cos2, 1e-8f);
+    const float tan2 = std::max(0.0f, 1.0f - cos2) / std::max(cos2, 1e-8f);
     return 2.0f / (1.0f + std::sqrt(1.0f + alpha2 * tan2));
 }
 
 template <IsSpectral TSpectral>
 float CookTorranceBSDF<TSpectral>::smith_G2(float n_dot_wo, float n_dot_wi, float alpha2) noexcept
 {
-    return smith_G1(n_dot_wo, alpha2) * smith_G1(n_dot_wi, alpha2);
+    // Height-correlated: 1 / (1 + lambda(wo) + lambda(wi)), with G1 = 1 / (1 + lambda)
+    const float g_wo = smith_G1(n_dot_wo, alpha2);
+    const float g_wi = smith_G1(n_dot_wi, alpha2);
+    return g_wo * g_wi / (g_wo + g_wi - g_wo * g_wi);
 }
 
 template <IsSpectral TSpectral>
 TSpectral CookTorranceBSDF<TSpectral>::schlick_fresnel(float cos_theta,
                                                        const TSpectral& f0) noexcept
 {
-    const float t = 1.0f - cos_theta;
+    const float t = std::max(0.0f, 1.0f - cos_theta);
     const float t2 = t * t;
     const float t5 = t2 * t2 * t;
     return f0 + (TSpectral{1} - f0) * t5;
-- 
2.43.0


From 3fc48c99f8aaa8d4ad72f6d95d55ebd342828ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 24/50] fix: sine-weighted hemisphere sampling did not follow
 its density, GGX densities overflowed for smooth surfaces,
 DeterministicSampler did not compile

---
 include/huira/materials/sampling_utils.hpp | 33 ++++++++++++++++++----
 include/huira/render/sampler.hpp           |  2 +-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 329b3aa..78eeedc 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <numbers>
 
@@ -65,8 +66,26 @@ struct HemisphereSample {
  */
 [[nodiscard]] inline HemisphereSample sine_hemisphere(float u1, float u2) noexcept
 {
-    const float cos_theta = std::cbrt(1.0f - u1);
-    const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    // Invert the CDF (2 * theta - sin(2 * theta)) / pi of theta on [0, pi/2]
+    const double target = std::numbers::pi * static_cast<double>(u1);
+    double lo = 0.0;
+    double hi = 0.5 * std::numbers::pi;
+    double theta = std::min(hi, std::cbrt(0.75 * target));
+    for (int i = 0; i < 50; ++i) {
+        const double error = 2.0 * theta - std::sin(2.0 * theta) - target;
+        (error > 0.0 ? hi : lo) = theta;
+        const double slope = 2.0 - 2.0 * std::cos(2.0 * theta);
+        double next = slope > 0.0 ? theta - error / slope : lo;
+        if (!(next >= lo && next <= hi)) {
+            next = 0.5 * (lo + hi);
+        }
+        if (std::abs(next - theta) < 1e-9) {
+            break;
+        }
+        theta = next;
+    }
+    const float cos_theta = static_cast<float>(std::cos(theta));
+    const float sin_theta = static_cast<float>(std::sin(theta));
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
     const float pdf = 2.0f * sin_theta / (std::numbers::pi_v<float> * std::numbers::pi_v<float>);
@@ -95,14 +114,16 @@ ggx_sample_half_vector(float u1, float u2, float roughness) noexcept
     const float alpha = roughness * roughness;
     const float alpha2 = alpha * alpha;
 
-    const float cos_theta2 = (1.0f - u1) / (1.0f + (alpha2 - 1.0f) * u1);
+    const float sum = (1.0f - u1) + alpha2 * u1;
+    const float cos_theta2 = (1.0f - u1) / sum;
+    const float sin_theta2 = alpha2 * u1 / sum;
     const float cos_theta = std::sqrt(cos_theta2);
-    const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta2));
+    const float sin_theta = std::sqrt(sin_theta2);
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
     const Vec3<float> h = {sin_theta * std::cos(phi), sin_theta * std::sin(phi), cos_theta};
 
-    const float denom = cos_theta2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom = alpha2 * cos_theta2 + sin_theta2;
     const float D = alpha2 / (std::numbers::pi_v<float> * denom * denom);
     const float pdf = D * cos_theta;
 
@@ -148,7 +169,7 @@ ggx_vndf_sample(const Vec3<float>& wo, float roughness, float u1, float u2) noex
     const float cos_theta_h = h.z;
     const float cos_theta_h2 = cos_theta_h * cos_theta_h;
     const float alpha2 = alpha * alpha;
-    const float denom_D = cos_theta_h2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom_D = alpha2 * cos_theta_h2 + h.x * h.x + h.y * h.y;
     const float D = alpha2 / (std::numbers::pi_v<float> * denom_D * denom_D);
 
     const float cos_theta_o = wo.z;
diff --git a/include/huira/render/sampler.hpp b/include/huira/render/sampler.hpp
index f27ccb7..94933da 100644
--- a/include/huira/render/sampler.hpp
+++ b/include/huira/render/sampler.hpp
@@ -32,7 +32,7 @@ class RandomSampler : public Sampler<TFloat> {
 template <IsFloatingPoint TFloat>
 class DeterministicSampler : public Sampler<TFloat> {
   public:
-    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5)(0.5)} {}
+    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5), TFloat(0.5)} {}
     DeterministicSampler(TFloat v1d, Vec2<TFloat> v2d) : value_1d(v1d), value_2d(v2d) {}
 
     TFloat get_1d() override { return value_1d; }
-- 
2.43.0


From 59d8703e62800ca82545bf6fc4b89f56eee78ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 25/50] fix: degenerate normal-map samples and tangents
 parallel to the shading normal gave NaN shading frames

---
 include/huira_impl/materials/material.ipp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..8d8a55d 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -41,22 +41,29 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
 
     if (eval_normal_) {
         if (isect.tangent != Vec3<float>{0.0f}) {
-            Vec3<float> ts_normal = glm::normalize(normal_image_->sample_bilinear(uv.x, uv.y));
-
+            Vec3<float> ts_normal = normal_image_->sample_bilinear(uv.x, uv.y);
             ts_normal.x *= normal_factor_;
             ts_normal.y *= normal_factor_;
-            ts_normal = glm::normalize(ts_normal);
 
             Vec3<float> perturbed = isect.tangent * ts_normal.x + isect.bitangent * ts_normal.y +
                                     isect.normal_s * ts_normal.z;
-            shading_isect.normal_s = glm::normalize(perturbed);
+            // A degenerate map sample (e.g. opposite normals averaged) leaves the normal as is
+            if (glm::dot(perturbed, perturbed) > 1e-12f) {
+                shading_isect.normal_s = glm::normalize(perturbed);
+            }
         }
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
-    shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    const Vec3<float> projected =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    if (glm::dot(projected, projected) > 1e-6f * glm::dot(isect.tangent, isect.tangent)) {
+        shading_isect.tangent = glm::normalize(projected);
+        shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    } else {
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
 
     MaterialEval<TSpectral> result{};
     result.params = params;
-- 
2.43.0


From 18921837b5808d5886960e0ff3e425ee53c46ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 26/50] fix: mid-grey texels of a normal texture decoded to NaN
 normals

---
 include/huira_impl/scene/scene.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index b101d71..9e3b0bb 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -973,7 +973,9 @@ TextureHandle<Vec3<float>> Scene<TSpectral>::add_normal_texture(Image<Vec3<float
                                                                 std::string name)
 {
     for (std::size_t i = 0; i < image.size(); ++i) {
-        image[i] = glm::normalize(image[i] * 2.0f - Vec3<float>{1.0f});
+        const Vec3<float> decoded = image[i] * 2.0f - Vec3<float>{1.0f};
+        const float length = glm::length(decoded);
+        image[i] = length > 0.0f ? decoded / length : Vec3<float>{0.0f, 0.0f, 1.0f};
     }
     return add_texture(std::move(image), name);
 }
-- 
2.43.0


From f702066a0669d35aaeb1af378a20c4d92453569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 27/50] fix: SphereLight split a total power equally over
 wavelength-weighted bins wrongly and lost its cone to cancellation when far
 away

---
 .../huira_impl/assets/lights/sphere_light.ipp | 48 +++++++++----------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..bbde347 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si) / (PI<float>() * surface_area);
 }
 
 template <IsSpectral TSpectral>
@@ -101,16 +101,20 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
         return std::nullopt;
     }
 
-    // Calculate the cone subtended by the sphere
+    // Calculate the cone subtended by the sphere. 1 - cos is formed from the sine, because
+    // subtracting a cosine from one cancels for small or distant lights.
     float sin_theta_max2 = (radius_ * radius_) / d2;
-    float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
+    float cos_theta_max = std::sqrt(std::max(0.0f, (d - radius_) * (d + radius_))) / d;
+    float one_minus_cos_max = sin_theta_max2 / (1.0f + cos_theta_max);
 
     // Uniformly sample the cone
     float u1 = sampler.get_1d();
     float u2 = sampler.get_1d();
 
-    float cos_theta = (1.0f - u1) + u1 * cos_theta_max;
-    float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    float one_minus_cos = u1 * one_minus_cos_max;
+    float cos_theta = 1.0f - one_minus_cos;
+    float sin_theta2 = one_minus_cos * (2.0f - one_minus_cos);
+    float sin_theta = std::sqrt(sin_theta2);
     float phi = u2 * 2.0f * PI<float>();
 
     // Build a local coordinate system around the vector to the center (wc)
@@ -128,18 +132,13 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
         u * (sin_theta * std::cos(phi)) + v * (sin_theta * std::sin(phi)) + w * cos_theta;
 
     // Calculate Solid Angle and PDF
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
+    float solid_angle = 2.0f * PI<float>() * one_minus_cos_max;
 
-    // Robustness fallback for tiny spheres or immense distances
-    // to prevent catastrophic cancellation in floating point math
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
-
-    // Calculate distance to the sphere surface along wi using standard ray-sphere intersection:
-    float b = glm::dot(wc, wi);
-    float discriminant = b * b - d2 + (radius_ * radius_);
-    float distance = b - std::sqrt(std::max(0.0f, discriminant));
+    // Calculate distance to the sphere surface along wi using standard ray-sphere intersection,
+    // in the form that does not cancel close to or far from the sphere:
+    float discriminant = radius_ * radius_ - d2 * sin_theta2;
+    float distance = ((d - radius_) * (d + radius_)) /
+                     (d * cos_theta + std::sqrt(std::max(0.0f, discriminant)));
 
     LightSample<TSpectral> ls;
     ls.wi = wi;
@@ -164,19 +163,16 @@ float SphereLight<TSpectral>::pdf_li(const Interaction<TSpectral>& isect,
         return 0.0f;
     }
 
-    float sin_theta_max2 = (radius_ * radius_) / d2;
-    float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
-
-    // Check if the given direction `wi` actually hits the sphere cone
-    float cos_theta = glm::dot(wi, glm::normalize(wc));
-    if (cos_theta < cos_theta_max) {
+    // Check if the given direction `wi` actually hits the sphere
+    Vec3<float> offset = glm::cross(wc, wi);
+    if (glm::dot(wc, wi) <= 0.0f || glm::dot(offset, offset) > radius_ * radius_) {
         return 0.0f; // Ray missed the sphere
     }
 
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float d = std::sqrt(d2);
+    float sin_theta_max2 = (radius_ * radius_) / d2;
+    float cos_theta_max = std::sqrt(std::max(0.0f, (d - radius_) * (d + radius_))) / d;
+    float solid_angle = 2.0f * PI<float>() * sin_theta_max2 / (1.0f + cos_theta_max);
 
     return 1.0f / solid_angle;
 }
-- 
2.43.0


From a37a26041527859c4d224e29f037495987cce1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 28/50] fix: unresolved spheres were 8/3 too faint or negative,
 asteroids ignored the astronomical unit, and instances sharing an object
 shared one irradiance

---
 include/huira/scene/scene_view_types.hpp               |  1 +
 .../assets/unresolved/unresolved_asteroid.ipp          |  4 ++--
 .../huira_impl/assets/unresolved/unresolved_sphere.ipp | 10 +++++++---
 include/huira_impl/render/renderer.ipp                 |  4 +---
 include/huira_impl/scene/scene_view.ipp                |  7 +++++++
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..65da92b 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances;       // Irradiance of this instance at N times
 };
 
 /**
diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..41bd5cc 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -24,7 +25,9 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    const double alpha = static_cast<double>(phase);
+    const double phi = (std::sin(alpha) + (PI<double>() - alpha) * std::cos(alpha)) / PI<double>();
+    return static_cast<float>(std::max(0.0, phi));
 };
 
 /**
@@ -137,13 +140,14 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.0f, 1.0f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // The phase function is one at zero phase and averages 3/8 over all directions
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                reflectedPower * (8.f / 3.f) / (4 * PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..8448cce 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -674,8 +674,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -691,7 +689,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
+            irradiances[i] = instance.irradiances[i];
         }
         TrajectoryArc arc(directions);
         items.push_back({arc, irradiances, stamp_radius});
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..9388859 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -138,6 +138,13 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         // interval
         unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
                                                                 lights_);
+
+        // Keep the result with the instance: other instances may share the object
+        unresolved_object.irradiances.clear();
+        for (const Time& time : temporal_samples_) {
+            unresolved_object.irradiances.push_back(
+                unresolved_object.unresolved_object->get_irradiance(time));
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From 187aaffe57f8f059f8a69b054b7100167adf0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 29/50] fix: moving or unevenly scaled instances were shaded at
 the wrong place and angle, and far ellipsoids lost their outline to
 cancellation

---
 include/huira/geometry/ray.hpp            |  1 +
 include/huira_impl/geometry/ellipsoid.ipp | 59 ++++++++++++-----------
 include/huira_impl/scene/scene_view.ipp   | 42 +++++++++++++---
 3 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/include/huira/geometry/ray.hpp b/include/huira/geometry/ray.hpp
index 102c181..1ede41e 100644
--- a/include/huira/geometry/ray.hpp
+++ b/include/huira/geometry/ray.hpp
@@ -42,6 +42,7 @@ struct HitRecord {
     unsigned int inst_id = RTC_INVALID_GEOMETRY_ID;   ///< Instance ID in TLAS
     unsigned int geom_id = RTC_INVALID_GEOMETRY_ID;   ///< Geometry ID in BLAS
     unsigned int prim_id = 0;                         ///< Triangle index
+    float time = 0.f;                                 ///< Shutter time of the ray
     Vec3<float> Ng{};                                 ///< Geometric face normal (unnormalized)
 
     [[nodiscard]] bool hit() const noexcept { return inst_id != RTC_INVALID_GEOMETRY_ID; }
diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..278e92d 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -36,7 +36,7 @@ void Ellipsoid<TSpectral>::compute_surface_interaction(const HitRecord& hit,
     Vec3<float> dpdu = {-radii_.x * sin_theta * sin_phi, radii_.y * sin_theta * cos_phi, 0.0f};
 
     // Handle singularity at the poles
-    if (glm::dot(dpdu, dpdu) < 1e-8f) {
+    if (glm::dot(dpdu, dpdu) < 1e-12f * r_max * r_max) {
         dpdu = {1.0f, 0.0f, 0.0f};
     }
 
@@ -98,47 +98,48 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
     const auto* ellipsoid = static_cast<const Ellipsoid<TSpectral>*>(args->geometryUserPtr);
     Vec3<float> r = ellipsoid->radii_;
-    Vec3<float> inv_r = {1.0f / r.x, 1.0f / r.y, 1.0f / r.z};
+    Vec3<double> inv_r = {1.0 / r.x, 1.0 / r.y, 1.0 / r.z};
 
     RTCRayHitN* rayhit = args->rayhit;
     RTCRayN* ray = RTCRayHitN_RayN(rayhit, args->N);
     RTCHitN* hit = RTCRayHitN_HitN(rayhit, args->N);
 
-    Vec3<float> O = {RTCRayN_org_x(ray, args->N, 0),
-                     RTCRayN_org_y(ray, args->N, 0),
-                     RTCRayN_org_z(ray, args->N, 0)};
-    Vec3<float> D = {RTCRayN_dir_x(ray, args->N, 0),
-                     RTCRayN_dir_y(ray, args->N, 0),
-                     RTCRayN_dir_z(ray, args->N, 0)};
+    // The quadratic cancels heavily for far away rays, so it is solved in double precision
+    Vec3<double> O = {RTCRayN_org_x(ray, args->N, 0),
+                      RTCRayN_org_y(ray, args->N, 0),
+                      RTCRayN_org_z(ray, args->N, 0)};
+    Vec3<double> D = {RTCRayN_dir_x(ray, args->N, 0),
+                      RTCRayN_dir_y(ray, args->N, 0),
+                      RTCRayN_dir_z(ray, args->N, 0)};
 
-    Vec3<float> O_s = O * inv_r;
-    Vec3<float> D_s = D * inv_r;
+    Vec3<double> O_s = O * inv_r;
+    Vec3<double> D_s = D * inv_r;
 
-    float L = glm::length(D_s);
-    Vec3<float> D_u = D_s / L;
+    double L = glm::length(D_s);
+    Vec3<double> D_u = D_s / L;
 
-    float B = 2.0f * glm::dot(O_s, D_u);
-    float C = glm::dot(O_s, O_s) - 1.0f;
+    double B = 2.0 * glm::dot(O_s, D_u);
+    double C = glm::dot(O_s, O_s) - 1.0;
 
-    float discriminant = B * B - 4.0f * C;
-    if (discriminant < 0.0f) {
+    double discriminant = B * B - 4.0 * C;
+    if (!(discriminant >= 0.0)) {
         return;
     }
 
-    float sqrt_disc = std::sqrt(discriminant);
-    float q = -0.5f * (B + std::copysign(sqrt_disc, B));
-    float t0_u = q;
-    float t1_u = C / q;
+    double sqrt_disc = std::sqrt(discriminant);
+    double q = -0.5 * (B + std::copysign(sqrt_disc, B));
+    double t0_u = q;
+    double t1_u = q != 0.0 ? C / q : q;
 
     if (t0_u > t1_u) {
         std::swap(t0_u, t1_u);
     }
 
-    float t0 = t0_u / L;
-    float t1 = t1_u / L;
+    double t0 = t0_u / L;
+    double t1 = t1_u / L;
 
     // A lambda allows us to cleanly test t0, and if rejected by alpha, test t1
-    auto test_hit = [&](float t_candidate) -> bool {
+    auto test_hit = [&](double t_candidate) -> bool {
         if (t_candidate < RTCRayN_tnear(ray, args->N, 0) ||
             t_candidate > RTCRayN_tfar(ray, args->N, 0)) {
             return false;
@@ -146,20 +147,20 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         // Save original tfar in case the filter rejects this hit
         float old_tfar = RTCRayN_tfar(ray, args->N, 0);
-        RTCRayN_tfar(ray, args->N, 0) = t_candidate;
+        RTCRayN_tfar(ray, args->N, 0) = static_cast<float>(t_candidate);
 
-        float t_u = t_candidate * L;
-        Vec3<float> P_s = O_s + t_u * D_u;
+        double t_u = t_candidate * L;
+        Vec3<double> P_s = O_s + t_u * D_u;
         float r_max = std::max({r.x, r.y, r.z});
-        Vec3<float> normal = (P_s * inv_r) * r_max;
+        Vec3<float> normal = P_s * inv_r * static_cast<double>(r_max);
 
         RTCHitN_Ng_x(hit, args->N, 0) = normal.x;
         RTCHitN_Ng_y(hit, args->N, 0) = normal.y;
         RTCHitN_Ng_z(hit, args->N, 0) = normal.z;
 
-        Vec3<float> P_unit = glm::normalize(O_s + t_u * D_u);
+        Vec3<float> P_unit = glm::normalize(P_s);
         float u = (std::atan2(P_unit.y, P_unit.x) + PI<float>()) / (2.0f * PI<float>());
-        float v = std::acos(P_unit.z) / PI<float>();
+        float v = std::atan2(std::hypot(P_unit.x, P_unit.y), P_unit.z) / PI<float>();
 
         RTCHitN_u(hit, args->N, 0) = u;
         RTCHitN_v(hit, args->N, 0) = v;
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 9388859..dc16d53 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -206,6 +206,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     rtcIntersect1(tlas_, &rayhit, &args);
 
     HitRecord rec;
+    rec.time = time;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
         rec.t = rayhit.ray.tfar;
         rec.u = rayhit.hit.u;
@@ -317,20 +318,47 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
     const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
 
-    isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+    // Columns of the instance's linear map and its translation at the time of the ray
+    std::array<Vec3<float>, 4> xf;
+    if (instance_transforms.size() == 1) {
+        const Mat4<float> matrix = instance_transforms[0].to_matrix();
+        for (std::size_t i = 0; i < 4; ++i) {
+            xf[i] = Vec3<float>{matrix[static_cast<int>(i)]};
+        }
+    } else {
+        rtcGetGeometryTransformFromScene(
+            tlas_, hit.inst_id, hit.time, RTC_FORMAT_FLOAT3X4_COLUMN_MAJOR, xf.data());
+    }
+    auto to_direction = [&xf](const Vec3<float>& d) {
+        return d.x * xf[0] + d.y * xf[1] + d.z * xf[2];
+    };
+    // Normals stay perpendicular to the surface only under the cofactors of the linear map
+    const std::array<Vec3<float>, 3> axes{
+        glm::normalize(xf[0]), glm::normalize(xf[1]), glm::normalize(xf[2])};
+    const Vec3<float> inverse_scale{
+        1.0f / glm::length(xf[0]), 1.0f / glm::length(xf[1]), 1.0f / glm::length(xf[2])};
+    auto to_normal = [&](const Vec3<float>& n) {
+        const Vec3<float> s = glm::normalize(glm::normalize(n) * inverse_scale);
+        return glm::normalize(s.x * axes[0] + s.y * axes[1] + s.z * axes[2]);
+    };
+
+    isect.position = to_direction(isect.position) + xf[3];
+    isect.normal_g = to_normal(hit.Ng);
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+    isect.normal_s = glm::dot(isect.normal_s, isect.normal_s) > 0.0f ? to_normal(isect.normal_s)
+                                                                     : isect.normal_g;
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+    // A zero tangent marks a surface without a tangent frame
+    for (Vec3<float>* axis : {&isect.tangent, &isect.bitangent}) {
+        if (glm::dot(*axis, *axis) > 0.0f) {
+            *axis = glm::normalize(to_direction(*axis));
+        }
+    }
     if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
         isect.bitangent = -isect.bitangent;
     }
-- 
2.43.0


From 8c8c779d4fe160b2de89053ca0168bb94689e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 30/50] fix: media left out of order were entered twice, thin
 media never scattered, and clear bands came out NaN over infinite paths

---
 include/huira/volumes/density/constant_density_field.hpp | 9 +++++----
 include/huira/volumes/medium.hpp                         | 4 ++--
 include/huira/volumes/medium_stack.hpp                   | 9 ++++++++-
 include/huira_impl/render/renderer.ipp                   | 4 ++--
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/huira/volumes/density/constant_density_field.hpp b/include/huira/volumes/density/constant_density_field.hpp
index 7dcb2c4..dbd0715 100644
--- a/include/huira/volumes/density/constant_density_field.hpp
+++ b/include/huira/volumes/density/constant_density_field.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <string>
 
 #include "huira/concepts/spectral_concepts.hpp"
@@ -17,13 +18,13 @@ class ConstantDensityField : public DensityField<TSpectral> {
     explicit ConstantDensityField(TSpectral absorption, TSpectral scattering)
     {
         for (float val : absorption) {
-            if (val < 0.f) {
-                HUIRA_THROW_ERROR("Absorption coefficients must be non-negative.");
+            if (!std::isfinite(val) || val < 0.f) {
+                HUIRA_THROW_ERROR("Absorption coefficients must be finite and non-negative.");
             }
         }
         for (float val : scattering) {
-            if (val < 0.f) {
-                HUIRA_THROW_ERROR("Scattering coefficients must be non-negative.");
+            if (!std::isfinite(val) || val < 0.f) {
+                HUIRA_THROW_ERROR("Scattering coefficients must be finite and non-negative.");
             }
         }
         properties_.absorption = absorption;
diff --git a/include/huira/volumes/medium.hpp b/include/huira/volumes/medium.hpp
index 0744d19..61377c9 100644
--- a/include/huira/volumes/medium.hpp
+++ b/include/huira/volumes/medium.hpp
@@ -67,7 +67,7 @@ class Medium : public SceneObject<Medium<TSpectral>> {
 
         TSpectral Tr{0.0f};
         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
-            Tr[c] = std::exp(-ext[c] * t);
+            Tr[c] = ext[c] > 0.0f ? std::exp(-ext[c] * t) : 1.0f;
         }
         return Tr;
     }
@@ -90,7 +90,7 @@ class Medium : public SceneObject<Medium<TSpectral>> {
         avg_ext /= static_cast<float>(TSpectral::size());
 
         // If the medium is practically a vacuum, the ray escapes infinitely
-        if (avg_ext <= 1e-6f) {
+        if (avg_ext <= 0.0f) {
             return std::nullopt;
         }
 
diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..cf1fbd6 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 
@@ -53,7 +54,13 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
+        // Leaving a medium need not happen in the reverse order of entering when bodies overlap
+        const auto end = entries_.begin() + static_cast<std::ptrdiff_t>(size_);
+        const auto found = std::find_if(entries_.begin(), end, [primitive](const Entry& entry) {
+            return entry.primitive == primitive;
+        });
+        if (found != end) {
+            std::move(found + 1, end, found);
             --size_;
         } else if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 8448cce..503949d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -278,9 +278,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     } else {
                                         TSpectral Tr{0.f};
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
-                                            Tr[c] = std::exp(-ext[c] * hit.t);
+                                            Tr[c] = ext[c] > 0.0f ? std::exp(-ext[c] * hit.t) : 1.0f;
                                         }
-                                        float pdf = std::exp(-avg_ext * hit.t);
+                                        float pdf = avg_ext > 0.0f ? std::exp(-avg_ext * hit.t) : 1.0f;
                                         throughput = throughput * Tr * (1.0f / pdf);
                                     }
                                 }
-- 
2.43.0


From 5a156f91542e8a039304ae2b0620ade7ce0891e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 31/50] fix: plane crossings of small or monotone motions were
 lost by the cubic and quadratic solvers

---
 include/huira_impl/render/trajectory_arc.ipp | 166 ++++++-------------
 1 file changed, 54 insertions(+), 112 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..ed733a5 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -223,6 +223,7 @@ std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>&
 std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
 {
     std::vector<float> all_roots;
+    float previous_end = 0.0f;
 
     for (std::size_t i = 0; i < segments_.size(); ++i) {
         const auto& s = segments_[i];
@@ -235,6 +236,12 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 
         auto roots = solve_cubic_(a, b, c, d, 0.0f, h);
 
+        // A crossing right at a knot may fall between the rounded ends of two segments
+        if (i > 0 && (previous_end < 0.0f) != (d < 0.0f)) {
+            all_roots.push_back(knots_[i]);
+        }
+        previous_end = d + h * (c + h * (b + h * a));
+
         for (float u : roots) {
             float t = knots_[i] + u;
             if (all_roots.empty() || std::abs(t - all_roots.back()) > 1e-6f) {
@@ -253,140 +260,75 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 
 std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-    if (std::abs(a) < eps) {
-        return {};
-    }
-    float t = -b / a;
-    if (t >= t_min - eps && t <= t_max + eps) {
-        return {std::clamp(t, t_min, t_max)};
-    }
-    return {};
+    return solve_cubic_(0.0f, 0.0f, a, b, t_min, t_max);
 }
 
 std::vector<float>
 TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-
-    if (std::abs(a) < eps) {
-        return solve_linear_(b, c, t_min, t_max);
-    }
-
-    float discriminant = b * b - 4.0f * a * c;
-    if (discriminant < 0.0f) {
-        return {};
-    }
-
-    std::vector<float> roots;
-    if (discriminant < eps) {
-        float t = -b / (2.0f * a);
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
-        }
-    } else {
-        float sqrt_d = std::sqrt(discriminant);
-        float q = -0.5f * (b + std::copysign(sqrt_d, b));
-        float t1 = q / a;
-        float t2 = c / q;
-
-        if (t1 > t2) {
-            std::swap(t1, t2);
-        }
-
-        if (t1 >= t_min - eps && t1 <= t_max + eps) {
-            roots.push_back(std::clamp(t1, t_min, t_max));
-        }
-        if (t2 >= t_min - eps && t2 <= t_max + eps) {
-            if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                roots.push_back(std::clamp(t2, t_min, t_max));
-            }
-        }
-    }
-    return roots;
+    return solve_cubic_(0.0f, a, b, c, t_min, t_max);
 }
 
 /**
  * @brief Solve a*t^3 + b*t^2 + c*t + d = 0 for roots in [t_min, t_max].
  *
- * Uses the depressed cubic (Cardano's method) for analytic solution.
+ * The interval is split where the derivative vanishes, and each monotone piece is bisected. No
+ * step depends on the magnitude of the coefficients, so arbitrarily small motions are resolved.
  */
 std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-
-    if (std::abs(a) < eps) {
-        return solve_quadratic_(b, c, d, t_min, t_max);
+    auto value = [&](double t) {
+        return ((static_cast<double>(a) * t + static_cast<double>(b)) * t +
+                static_cast<double>(c)) *
+                   t +
+               static_cast<double>(d);
+    };
+
+    // Ends of the monotone pieces
+    std::vector<double> ends{static_cast<double>(t_min), static_cast<double>(t_max)};
+    auto add_end = [&](double t) {
+        if (t > static_cast<double>(t_min) && t < static_cast<double>(t_max)) {
+            ends.push_back(t);
+        }
+    };
+    const double da = 3.0 * static_cast<double>(a);
+    const double db = 2.0 * static_cast<double>(b);
+    const double dc = static_cast<double>(c);
+    const double discriminant = db * db - 4.0 * da * dc;
+    if (discriminant >= 0.0) {
+        const double q = -0.5 * (db + std::copysign(std::sqrt(discriminant), db));
+        add_end(q / da);
+        add_end(dc / q);
     }
-
-    float p = b / a;
-    float q = c / a;
-    float r = d / a;
-
-    float p2 = p * p;
-    float A = q - p2 / 3.0f;
-    float B = r - p * q / 3.0f + 2.0f * p2 * p / 27.0f;
-
-    float discriminant = -4.0f * A * A * A - 27.0f * B * B;
+    std::sort(ends.begin(), ends.end());
 
     std::vector<float> roots;
-    float offset = -p / 3.0f;
-
-    if (discriminant > eps) {
-        float m = 2.0f * std::sqrt(-A / 3.0f);
-        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;
-
-        for (int k = 0; k < 3; ++k) {
-            float u = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f);
-            float t = u + offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
+    for (std::size_t i = 0; i + 1 < ends.size(); ++i) {
+        double lo = ends[i];
+        double hi = ends[i + 1];
+        double f_lo = value(lo);
+        double f_hi = value(hi);
+        if (f_lo == 0.0 && f_hi == 0.0) {
+            continue; // Lies in the plane without crossing it
         }
-    } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
+        if ((f_lo < 0.0 && f_hi < 0.0) || (f_lo > 0.0 && f_hi > 0.0)) {
+            continue;
         }
-
-        float t = u + offset;
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
-        }
-    } else {
-        if (std::abs(B) < eps) {
-            float t = offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        } else {
-            float u1 = 3.0f * B / A;
-            float u2 = -u1 / 2.0f;
-
-            float t1 = u1 + offset;
-            float t2 = u2 + offset;
-
-            if (t1 >= t_min - eps && t1 <= t_max + eps) {
-                roots.push_back(std::clamp(t1, t_min, t_max));
-            }
-            if (t2 >= t_min - eps && t2 <= t_max + eps) {
-                if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                    roots.push_back(std::clamp(t2, t_min, t_max));
-                }
+        for (int step = 0; step < 60; ++step) {
+            const double mid = 0.5 * (lo + hi);
+            const double f_mid = value(mid);
+            if (f_mid == 0.0 || (f_mid < 0.0) != (f_lo < 0.0 || (f_lo == 0.0 && f_hi > 0.0))) {
+                hi = mid;
+            } else {
+                lo = mid;
             }
         }
+        const float root = std::clamp(static_cast<float>(0.5 * (lo + hi)), t_min, t_max);
+        if (roots.empty() || root > roots.back()) {
+            roots.push_back(root);
+        }
     }
-
-    std::sort(roots.begin(), roots.end());
     return roots;
 }
-
 } // namespace huira
-- 
2.43.0


From edc5a96d47c4a183d1237623e1ec4eb1cb5381e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 32/50] fix: the headers could not be used from two source
 files

---
 include/huira/util/logger.hpp                |  2 +-
 include/huira_impl/platform/get_exe_path.ipp |  2 +-
 include/huira_impl/platform/info.ipp         | 10 ++--
 include/huira_impl/render/trajectory_arc.ipp | 24 +++++-----
 include/huira_impl/stars/io/load_tycho2.ipp  |  4 +-
 include/huira_impl/stars/io/star_catalog.ipp |  2 +-
 include/huira_impl/util/logger.ipp           | 48 ++++++++++----------
 include/huira_impl/util/paths.ipp            | 14 +++---
 8 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..eb984d8 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -306,7 +306,7 @@ inline void enable_console_warning(bool enable = true)
     } while (0)
 
 namespace huira {
-std::vector<const char*>& get_thread_scope_stack()
+inline std::vector<const char*>& get_thread_scope_stack()
 {
     thread_local std::vector<const char*> scope_stack;
     return scope_stack;
diff --git a/include/huira_impl/platform/get_exe_path.ipp b/include/huira_impl/platform/get_exe_path.ipp
index 2176856..5128372 100644
--- a/include/huira_impl/platform/get_exe_path.ipp
+++ b/include/huira_impl/platform/get_exe_path.ipp
@@ -17,7 +17,7 @@
 #endif
 
 namespace huira {
-std::string get_executable_path()
+inline std::string get_executable_path()
 {
 #ifdef _WIN32
     char path[MAX_PATH];
diff --git a/include/huira_impl/platform/info.ipp b/include/huira_impl/platform/info.ipp
index d3dd4b2..f3ff603 100644
--- a/include/huira_impl/platform/info.ipp
+++ b/include/huira_impl/platform/info.ipp
@@ -15,7 +15,7 @@
 #endif
 
 namespace huira {
-std::string get_platform()
+inline std::string get_platform()
 {
 #ifdef _WIN32
     return "Windows";
@@ -28,7 +28,7 @@ std::string get_platform()
 #endif
 }
 
-std::string get_compiler_info()
+inline std::string get_compiler_info()
 {
 #ifdef _MSC_VER
     return "MSVC " + std::to_string(_MSC_VER);
@@ -41,7 +41,7 @@ std::string get_compiler_info()
 #endif
 }
 
-std::string get_memory_usage()
+inline std::string get_memory_usage()
 {
     std::string output;
 
@@ -89,7 +89,7 @@ std::string get_memory_usage()
     return output;
 }
 
-std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
+inline std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
                                const std::string fmt)
 {
     auto time_t = std::chrono::system_clock::to_time_t(tp);
@@ -112,7 +112,7 @@ std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
     return oss.str();
 }
 
-std::string get_time_as_string(const std::string& fmt)
+inline std::string get_time_as_string(const std::string& fmt)
 {
     return get_time_as_string(std::chrono::system_clock::now(), fmt);
 }
diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index ed733a5..1f7085a 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -15,7 +15,7 @@ namespace huira {
  *
  * @param samples Direction vectors at each sample time. Must have at least 2 elements.
  */
-TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
+inline TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
     : sample_count_(samples.size())
 {
     if (samples.size() < 1) {
@@ -35,7 +35,7 @@ TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
  * @param t Parameter value in [0, 1].
  * @return Interpolated direction vector.
  */
-Vec3<float> TrajectoryArc::evaluate(float t) const
+inline Vec3<float> TrajectoryArc::evaluate(float t) const
 {
     if (is_polynomial_()) {
         return evaluate_polynomial_(t);
@@ -52,7 +52,7 @@ Vec3<float> TrajectoryArc::evaluate(float t) const
  * @param plane_normal Inward-pointing normal of a plane through the origin.
  * @return Sorted list of parameter values where the crossing occurs.
  */
-std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
+inline std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
 {
     if (is_polynomial_()) {
         return find_crossings_polynomial_(plane_normal);
@@ -68,7 +68,7 @@ std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_
  *   f(t) = p0(1 - 3t + 2t^2) + p1(4t - 4t^2) + p2(-t + 2t^2)
  *   Coefficients: a0 = p0, a1 = -3*p0 + 4*p1 - p2, a2 = 2*p0 - 4*p1 + 2*p2
  */
-void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
 {
     if (samples.size() == 1) {
         // Constant: f(t) = p0
@@ -103,7 +103,7 @@ void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
  *   S_i(u) = a_i + b_i*u + c_i*u^2 + d_i*u^3
  * where u = t - knots_[i].
  */
-void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
 {
     const std::size_t n = samples.size();
     const std::size_t num_segments = n - 1;
@@ -164,7 +164,7 @@ void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
     }
 }
 
-Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
 {
     // Horner's method:
     Vec3<float> result = poly_coeffs_.back();
@@ -174,7 +174,7 @@ Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
     return result;
 }
 
-Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
 {
     t = std::clamp(t, 0.0f, 1.0f);
 
@@ -198,7 +198,7 @@ Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
  *
  * dot(normal, f(t)) = 0 becomes a scalar polynomial in t.
  */
-std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
 {
     if (poly_coeffs_.size() == 1) {
         // Constant: dot(normal, p0) is either >= 0 or < 0. No crossings.
@@ -220,7 +220,7 @@ std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>&
  *
  * For each segment, dot(normal, S_i(u)) = 0 is a cubic in u.
  */
-std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
 {
     std::vector<float> all_roots;
     float previous_end = 0.0f;
@@ -258,12 +258,12 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 // Root-finding utilities
 // =========================================================================
 
-std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
+inline std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
 {
     return solve_cubic_(0.0f, 0.0f, a, b, t_min, t_max);
 }
 
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_max)
 {
     return solve_cubic_(0.0f, a, b, c, t_min, t_max);
@@ -275,7 +275,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
  * The interval is split where the derivative vanishes, and each monotone piece is bisected. No
  * step depends on the magnitude of the coefficients, so arbitrarily small motions are resolved.
  */
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
     auto value = [&](double t) {
diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..875d761 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -57,7 +57,7 @@ static bool is_valid_line_(const std::string& line)
     return !line.empty() && std::isdigit(static_cast<unsigned char>(line[0]));
 }
 
-std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
@@ -138,7 +138,7 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
     return star_data;
 }
 
-std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..f3f2db1 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -58,7 +58,7 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
                    " stars written to: " + filepath.string());
 }
 
-StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
+inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
 {
     std::ifstream in(filepath, std::ios::binary);
     if (!in) {
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..a9542f2 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -24,7 +24,7 @@ namespace huira {
  *
  * @return std::string Formatted log entry string
  */
-std::string LogEntry::to_string() const
+inline std::string LogEntry::to_string() const
 {
     std::ostringstream oss;
     auto time_t = std::chrono::system_clock::to_time_t(timestamp);
@@ -50,7 +50,7 @@ std::string LogEntry::to_string() const
  * @param level LogLevel to convert
  * @return const char* String representation of the log level
  */
-const char* LogEntry::level_to_string(LogLevel level)
+inline const char* LogEntry::level_to_string(LogLevel level)
 {
     switch (level) {
     case LogLevel::Debug:
@@ -84,7 +84,7 @@ inline std::atomic<bool> Logger::crash_reported_{false};
  * - Debug and info console output disabled
  * - Crash handler automatically installed
  */
-Logger::Logger()
+inline Logger::Logger()
     : buffer_(1000), write_index_(0), min_level_(LogLevel::Info), crash_handler_enabled_(false),
       console_debug_(false), console_info_(false),
       console_warning_(true) // Warning is on by default
@@ -99,7 +99,7 @@ Logger::Logger()
 /**
  * @brief Destructor for the logger.
  */
-Logger::~Logger() = default;
+inline Logger::~Logger() = default;
 
 /**
  * @brief Set the minimum log level.
@@ -108,7 +108,7 @@ Logger::~Logger() = default;
  *
  * @param level Minimum severity level to log
  */
-void Logger::set_level(LogLevel level)
+inline void Logger::set_level(LogLevel level)
 {
     instance().min_level_.store(level, std::memory_order_relaxed);
 }
@@ -118,7 +118,7 @@ void Logger::set_level(LogLevel level)
  *
  * @return LogLevel Current minimum log level
  */
-LogLevel Logger::get_level()
+inline LogLevel Logger::get_level()
 {
     return instance().min_level_.load(std::memory_order_relaxed);
 }
@@ -131,7 +131,7 @@ LogLevel Logger::get_level()
  *
  * @param size New buffer size (minimum 1)
  */
-void Logger::set_buffer_size(size_t size)
+inline void Logger::set_buffer_size(size_t size)
 {
     if (size == 0) {
         size = 1;
@@ -157,7 +157,7 @@ void Logger::set_buffer_size(size_t size)
  *
  * @return size_t Number of log entries that can be stored
  */
-size_t Logger::get_buffer_size()
+inline size_t Logger::get_buffer_size()
 {
     return instance().buffer_.size();
 }
@@ -170,7 +170,7 @@ size_t Logger::get_buffer_size()
  *
  * @param sink Callback function to receive log entries
  */
-void Logger::set_custom_sink(CustomSink sink)
+inline void Logger::set_custom_sink(CustomSink sink)
 {
     instance().custom_sink_ = std::move(sink);
 }
@@ -178,7 +178,7 @@ void Logger::set_custom_sink(CustomSink sink)
 /**
  * @brief Clear the custom output sink.
  */
-void Logger::clear_custom_sink()
+inline void Logger::clear_custom_sink()
 {
     instance().custom_sink_ = nullptr;
 }
@@ -192,7 +192,7 @@ void Logger::clear_custom_sink()
  * @param level Severity level of the message
  * @param message Message to log
  */
-void Logger::log(LogLevel level, const std::string& message)
+inline void Logger::log(LogLevel level, const std::string& message)
 {
     if (level < instance().min_level_.load(std::memory_order_relaxed)) {
         return;
@@ -225,7 +225,7 @@ void Logger::log(LogLevel level, const std::string& message)
  * @param filepath Path to output file (empty for platform-specific default)
  * @return std::string Actual path where log was written, or empty on failure
  */
-std::string Logger::dump_to_file(const std::string& filepath)
+inline std::string Logger::dump_to_file(const std::string& filepath)
 {
     std::filesystem::path actual_path;
 
@@ -278,7 +278,7 @@ std::string Logger::dump_to_file(const std::string& filepath)
  *
  * @param enable True to enable crash handling
  */
-void Logger::enable_crash_handler(bool enable)
+inline void Logger::enable_crash_handler(bool enable)
 {
     instance().crash_handler_enabled_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -293,7 +293,7 @@ void Logger::enable_crash_handler(bool enable)
  *
  * @param enable True to enable debug console output
  */
-void Logger::enable_console_debug(bool enable)
+inline void Logger::enable_console_debug(bool enable)
 {
     instance().console_debug_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -311,7 +311,7 @@ void Logger::enable_console_debug(bool enable)
  *
  * @param enable True to enable info console output
  */
-void Logger::enable_console_info(bool enable)
+inline void Logger::enable_console_info(bool enable)
 {
     instance().console_info_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -330,7 +330,7 @@ void Logger::enable_console_info(bool enable)
  *
  * @param enable True to enable warning console output
  */
-void Logger::enable_console_warning(bool enable)
+inline void Logger::enable_console_warning(bool enable)
 {
     instance().console_warning_.store(enable, std::memory_order_relaxed);
     if (!enable) {
@@ -345,7 +345,7 @@ void Logger::enable_console_warning(bool enable)
  *
  * @return bool True if debug console output is enabled
  */
-bool Logger::is_console_debug_enabled()
+inline bool Logger::is_console_debug_enabled()
 {
     return instance().console_debug_.load(std::memory_order_relaxed);
 }
@@ -355,7 +355,7 @@ bool Logger::is_console_debug_enabled()
  *
  * @return bool True if info console output is enabled
  */
-bool Logger::is_console_info_enabled()
+inline bool Logger::is_console_info_enabled()
 {
     return instance().console_info_.load(std::memory_order_relaxed);
 }
@@ -365,7 +365,7 @@ bool Logger::is_console_info_enabled()
  *
  * @return bool True if warning console output is enabled
  */
-bool Logger::is_console_warning_enabled()
+inline bool Logger::is_console_warning_enabled()
 {
     return instance().console_warning_.load(std::memory_order_relaxed);
 }
@@ -378,7 +378,7 @@ bool Logger::is_console_warning_enabled()
  *
  * @param log_path Path to the dumped log file
  */
-void Logger::output_crash_report(const std::string& log_path)
+inline void Logger::output_crash_report(const std::string& log_path)
 {
     if (!log_path.empty()) {
         std::cerr << red("HUIRA UNCAUGHT EXCEPTION") << "\n";
@@ -405,7 +405,7 @@ void Logger::output_crash_report(const std::string& log_path)
  *
  * @param signal Signal number that triggered the handler
  */
-void Logger::handle_crash(int signal)
+inline void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -450,7 +450,7 @@ void Logger::handle_crash(int signal)
  * @param exception_info Windows exception information structure
  * @return LONG EXCEPTION_CONTINUE_SEARCH to continue exception handling
  */
-LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
+inline LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -476,7 +476,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * dumps the log, outputs a crash report, and calls std::abort(). Ensures only
  * one crash report is generated per process.
  */
-[[noreturn]] void Logger::handle_terminate()
+[[noreturn]] inline void Logger::handle_terminate()
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -520,7 +520,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * Uses compiler pragmas to suppress warnings about potentially-throwing functions
  * in extern C contexts, as the handlers are designed to catch all exceptions internally.
  */
-void Logger::install_crash_handlers()
+inline void Logger::install_crash_handlers()
 {
     // Suppress C5039: passing potentially-throwing function to extern C function
     // Our handlers are carefully designed to catch all exceptions internally
diff --git a/include/huira_impl/util/paths.ipp b/include/huira_impl/util/paths.ipp
index 799e557..aecc5d2 100644
--- a/include/huira_impl/util/paths.ipp
+++ b/include/huira_impl/util/paths.ipp
@@ -11,30 +11,30 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
-Paths& Paths::instance()
+inline Paths& Paths::instance()
 {
     static Paths instance;
     return instance;
 }
 
-fs::path Paths::executable_path()
+inline fs::path Paths::executable_path()
 {
     return get_executable_path();
 }
 
-fs::path Paths::executable_dir()
+inline fs::path Paths::executable_dir()
 {
     return std::filesystem::path(executable_path()).parent_path().string();
 }
 
-fs::path Paths::relative_to_executable(const fs::path& relativePath)
+inline fs::path Paths::relative_to_executable(const fs::path& relativePath)
 {
     namespace fs = std::filesystem;
     auto resolved = fs::path(executable_dir()) / relativePath;
     return fs::weakly_canonical(resolved).string();
 }
 
-fs::path Paths::data_dir() const
+inline fs::path Paths::data_dir() const
 {
     if (data_dir_override_) {
         return *data_dir_override_;
@@ -42,7 +42,7 @@ fs::path Paths::data_dir() const
     return HUIRA_DEFAULT_DATA_DIR;
 }
 
-void Paths::set_data_dir(const fs::path& path)
+inline void Paths::set_data_dir(const fs::path& path)
 {
     namespace fs = std::filesystem;
 
@@ -55,7 +55,7 @@ void Paths::set_data_dir(const fs::path& path)
     }
 }
 
-void Paths::reset_data_dir()
+inline void Paths::reset_data_dir()
 {
     data_dir_override_.reset();
 }
-- 
2.43.0


From d7c94046dcf89dfee4a764c57d0bdb28c9cbdccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 33/50] fix: the logger raced between threads, was used after
 destruction at exit, hung on crashes with the handler off, and HUIRA_LOG did
 not compile

---
 include/huira/util/logger.hpp      | 56 ++++++++++++++++++++++++++----
 include/huira_impl/util/logger.ipp | 29 +++++++++++-----
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index eb984d8..4cefbbb 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -1,9 +1,13 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <cstddef>
 #include <functional>
 #include <iostream>
+#include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -61,7 +65,7 @@ struct LogEntry {
  * - Per-level console output configuration
  * - Cross-platform crash reporting (signals and SEH)
  *
- * The logger is thread-safe and uses lock-free atomic operations for performance.
+ * The logger is thread-safe: settings are atomic, and a mutex guards the buffer and the sink.
  * Log entries are stored in a circular buffer and can be dumped to a file on demand
  * or automatically during crashes.
  */
@@ -71,8 +75,9 @@ class Logger {
 
     static Logger& instance()
     {
-        static Logger logger;
-        return logger;
+        // Never destroyed, as destructors of static objects and other threads may still log
+        static Logger* logger = new Logger();
+        return *logger;
     }
 
     // Prevent copying and moving
@@ -114,6 +119,9 @@ class Logger {
     static LONG WINAPI windows_exception_handler(EXCEPTION_POINTERS* exception_info);
 #endif
 
+    // Recursive, as a crash may be handled on a thread that is logging
+    std::recursive_mutex mutex_;
+
     std::vector<LogEntry> buffer_;
     std::atomic<size_t> write_index_;
     std::atomic<LogLevel> min_level_;
@@ -121,7 +129,7 @@ class Logger {
     std::atomic<bool> console_debug_;
     std::atomic<bool> console_info_;
     std::atomic<bool> console_warning_;
-    CustomSink custom_sink_;
+    std::shared_ptr<CustomSink> custom_sink_;
 
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
@@ -284,7 +292,9 @@ inline void enable_console_warning(bool enable = true)
     do {                                                                                           \
         if (huira::Logger::instance().get_level() <= level) {                                      \
             std::ostringstream _huira_log_oss;                                                     \
-            (_huira_log_oss << ... << __VA_ARGS__);                                                \
+            [&](const auto&... _huira_log_args) {                                                  \
+                (_huira_log_oss << ... << _huira_log_args);                                        \
+            }(__VA_ARGS__);                                                                        \
             huira::Logger::instance().log(level, _huira_log_oss.str());                            \
         }                                                                                          \
     } while (0)
@@ -306,9 +316,41 @@ inline void enable_console_warning(bool enable = true)
     } while (0)
 
 namespace huira {
-inline std::vector<const char*>& get_thread_scope_stack()
+/**
+ * @brief Names of the scopes a thread is in.
+ *
+ * Trivially destructible, so that scopes entered while a thread or the program ends are harmless.
+ * Scopes deeper than the capacity are counted but not named.
+ */
+class ScopeStack {
+  public:
+    bool empty() const { return depth_ == 0; }
+    const char* back() const { return names_[size() - 1]; }
+    const char* const* begin() const { return names_; }
+    const char* const* end() const { return names_ + size(); }
+
+    void push_back(const char* name)
+    {
+        if (depth_ < capacity_) {
+            names_[depth_] = name;
+        }
+        ++depth_;
+    }
+
+    void pop_back() { --depth_; }
+
+  private:
+    static constexpr std::size_t capacity_ = 64;
+
+    std::size_t size() const { return depth_ < capacity_ ? depth_ : capacity_; }
+
+    const char* names_[capacity_];
+    std::size_t depth_;
+};
+
+inline ScopeStack& get_thread_scope_stack()
 {
-    thread_local std::vector<const char*> scope_stack;
+    thread_local ScopeStack scope_stack{};
     return scope_stack;
 }
 
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index a9542f2..c2d29bb 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -137,6 +137,7 @@ inline void Logger::set_buffer_size(size_t size)
         size = 1;
     }
     std::vector<LogEntry> new_buffer(size);
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
 
     // Copy existing entries
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
@@ -159,6 +160,7 @@ inline void Logger::set_buffer_size(size_t size)
  */
 inline size_t Logger::get_buffer_size()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
 }
 
@@ -172,7 +174,9 @@ inline size_t Logger::get_buffer_size()
  */
 inline void Logger::set_custom_sink(CustomSink sink)
 {
-    instance().custom_sink_ = std::move(sink);
+    auto new_sink = sink ? std::make_shared<CustomSink>(std::move(sink)) : nullptr;
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+    instance().custom_sink_.swap(new_sink);
 }
 
 /**
@@ -180,7 +184,7 @@ inline void Logger::set_custom_sink(CustomSink sink)
  */
 inline void Logger::clear_custom_sink()
 {
-    instance().custom_sink_ = nullptr;
+    set_custom_sink(nullptr);
 }
 
 /**
@@ -201,14 +205,19 @@ inline void Logger::log(LogLevel level, const std::string& message)
     LogEntry entry{std::chrono::system_clock::now(), level, message, std::this_thread::get_id()};
 
     // Add to circular buffer
-    size_t index =
-        instance().write_index_.fetch_add(1, std::memory_order_relaxed) % instance().buffer_.size();
-    instance().buffer_[index] = entry;
+    std::shared_ptr<CustomSink> sink;
+    {
+        std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+        size_t index = instance().write_index_.fetch_add(1, std::memory_order_relaxed) %
+                       instance().buffer_.size();
+        instance().buffer_[index] = entry;
+        sink = instance().custom_sink_;
+    }
 
-    // Call custom sink if set
-    if (instance().custom_sink_) {
+    // Call custom sink if set, without the lock as the sink may log itself
+    if (sink) {
         try {
-            instance().custom_sink_(entry);
+            (*sink)(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
@@ -253,6 +262,7 @@ inline std::string Logger::dump_to_file(const std::string& filepath)
     file << "=========\n\n";
     file << "Platform: " << platform_str << " | Compiler: " << compiler_str << "\n\n";
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t total_entries = std::min(current_write, instance().buffer_.size());
     size_t start_index =
@@ -409,6 +419,9 @@ inline void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
+        // Crash as if the handler was not installed
+        std::signal(signal, SIG_DFL);
+        std::raise(signal);
         return;
     }
     // Only print crash report once
-- 
2.43.0


From 169fc230da7d455308ceaebd65adef2933462d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 34/50] fix: observed Tycho-2 positions and epochs were read
 one column off, skipped records leaked into the next star, and damaged
 catalogues were read or written unnoticed

---
 include/huira/stars/io/star_data.hpp         |  5 ++
 include/huira_impl/stars/io/load_tycho2.ipp  | 74 +++++++++++---------
 include/huira_impl/stars/io/star_catalog.ipp | 17 ++++-
 include/huira_impl/stars/io/star_data.ipp    |  4 +-
 4 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/include/huira/stars/io/star_data.hpp b/include/huira/stars/io/star_data.hpp
index bf2da54..be6ffbb 100644
--- a/include/huira/stars/io/star_data.hpp
+++ b/include/huira/stars/io/star_data.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <filesystem>
 #include <limits>
@@ -35,6 +36,10 @@ struct StarData {
     // Allows sorting by magnitude:
     bool operator<(const StarData& other) const
     {
+        // Stars without a magnitude come last, to keep the order strict and weak
+        if (std::isnan(visual_magnitude) || std::isnan(other.visual_magnitude)) {
+            return !std::isnan(visual_magnitude) && std::isnan(other.visual_magnitude);
+        }
         return visual_magnitude < other.visual_magnitude;
     }
 };
diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 875d761..de1350c 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -1,5 +1,7 @@
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <filesystem>
 #include <fstream>
 #include <limits>
@@ -12,17 +14,6 @@
 namespace fs = std::filesystem;
 
 namespace huira {
-static std::size_t count_lines_(const fs::path& filepath)
-{
-    std::ifstream file(filepath, std::ios::binary);
-
-    // Count new-lines:
-    auto count =
-        std::count(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>(), '\n');
-
-    return static_cast<std::size_t>(count);
-}
-
 static bool has_mean_position_(const std::string& line)
 {
     if (line.size() < 14) {
@@ -45,12 +36,33 @@ static double read_entry_(const std::string& line, std::size_t start, std::size_
     std::size_t last = field.find_last_not_of(" \t");
     field = field.substr(first, last - first + 1);
     try {
-        return std::stod(field);
+        std::size_t used = 0;
+        double value = std::stod(field, &used);
+        if (used != field.size() || !std::isfinite(value)) {
+            return std::numeric_limits<double>::quiet_NaN();
+        }
+        return value;
     } catch (...) {
         return std::numeric_limits<double>::quiet_NaN();
     }
 }
 
+static bool read_tycho2_id_(const std::string& line, std::uint64_t& id)
+{
+    double tyc1 = read_entry_(line, 0, 4);
+    double tyc2 = read_entry_(line, 5, 10);
+    double tyc3 = read_entry_(line, 11, 12);
+    // Negated, so that missing entries fail
+    if (!(tyc1 >= 0. && tyc1 <= 0x3FFF && tyc2 >= 0. && tyc2 <= 0xFFFF && tyc3 >= 0. &&
+          tyc3 <= 0xF)) {
+        return false;
+    }
+    id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                        static_cast<uint16_t>(tyc2),
+                        static_cast<uint8_t>(tyc3));
+    return true;
+}
+
 static bool is_valid_line_(const std::string& line)
 {
     // Data lines start with a digit (TYC1 number)
@@ -59,7 +71,7 @@ static bool is_valid_line_(const std::string& line)
 
 inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
@@ -70,12 +82,11 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            star_data.resize(i + 1);
+            star_data[i] = StarData{}; // May hold a skipped star
+            if (!read_tycho2_id_(line, star_data[i].id)) {
+                continue;
+            }
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -89,19 +100,19 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at (one-based) bytes 153-164 and 166-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at (one-based) bytes 179-182, epDE at 184-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
@@ -140,7 +151,7 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 
 inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
@@ -151,12 +162,11 @@ inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            star_data.resize(i + 1);
+            star_data[i] = StarData{}; // May hold a skipped star
+            if (!read_tycho2_id_(line, star_data[i].id)) {
+                continue;
+            }
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index f3f2db1..67dd970 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -53,6 +53,10 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     // Write all star data
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write file: " + filepath.string());
+    }
 
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
@@ -68,7 +72,7 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
-    if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
+    if (!in || header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
     }
@@ -80,6 +84,14 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
                           ").  Please re-generate.");
     }
 
+    // The stars must all be there
+    in.seekg(0, std::ios::end);
+    const auto stars_size =
+        static_cast<std::uint64_t>(in.tellg()) - static_cast<std::uint64_t>(sizeof(HrscHeader));
+    if (header.star_count > stars_size / sizeof(StarData)) {
+        HUIRA_THROW_ERROR("StarCatalog - Truncated file: " + filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
@@ -101,6 +113,9 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
     in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader)));
     in.read(reinterpret_cast<char*>(stars.data()),
             static_cast<std::streamsize>(low * sizeof(StarData)));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read file: " + filepath.string());
+    }
 
     StarCatalog star_catalog(stars);
     star_catalog.set_catalog_type(header.catalog_type);
diff --git a/include/huira_impl/stars/io/star_data.ipp b/include/huira_impl/stars/io/star_data.ipp
index 4480f58..c8d7e3b 100644
--- a/include/huira_impl/stars/io/star_data.ipp
+++ b/include/huira_impl/stars/io/star_data.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <filesystem>
 #include <vector>
 
@@ -24,7 +25,8 @@ inline void StarData::process_magnitude(double BTmag, double VTmag)
         vmag = has_vt ? VTmag : BTmag;
     }
 
-    // Compute effective temperature from B-V color index:
+    // Compute effective temperature from B-V color index (which has a pole at -0.674):
+    bv_color_index = std::max(bv_color_index, -0.6);
     double temp =
         4600.0 * (1.0 / (0.92 * bv_color_index + 1.7) + 1.0 / (0.92 * bv_color_index + 0.62));
 
-- 
2.43.0


From 0ed41406750957852f8b877f27ee1e63a93f6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 35/50] fix: embedded and emissive textures were not decoded as
 colours, emissive textures of glTF files were ignored, mirrored nodes were
 refused, and failed loads left a model behind

---
 include/huira_impl/assets/io/model_loader.ipp | 67 ++++++++++++++-----
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1e279f4..657da57 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -63,7 +63,6 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
     if (name.empty()) {
         name = file_path.stem().string();
     }
-    scene.models_.add(shared_model, name);
 
     // Create the root node for the model's scene graph
     // Note: We pass nullptr for Scene* since this is a disconnected graph
@@ -109,6 +108,9 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
         }
     }
 
+    // Only a completely loaded model joins the scene
+    scene.models_.add(shared_model, name);
+
     HUIRA_LOG_INFO("ModelLoader::load - Model loaded successfully: " + shared_model->get_info());
 
     return shared_model;
@@ -321,7 +323,6 @@ Transform<double> ModelLoader<TSpectral>::convert_transform_(const aiMatrix4x4&
     double scale_y = std::sqrt(col1.x * col1.x + col1.y * col1.y + col1.z * col1.z);
     double scale_z = std::sqrt(col2.x * col2.x + col2.y * col2.y + col2.z * col2.z);
 
-    transform.scale = Vec3<double>{scale_x, scale_y, scale_z};
 
     // Normalize the basis vectors to get the rotation matrix
     if (scale_x > 1e-10) {
@@ -341,6 +342,17 @@ Transform<double> ModelLoader<TSpectral>::convert_transform_(const aiMatrix4x4&
     }
 
     // Recall the column major ordering of GLM:
+    // A mirrored node is a rotation of a negative scale
+    if (glm::dot(glm::cross(col0, col1), col2) < 0.0) {
+        scale_x = -scale_x;
+        scale_y = -scale_y;
+        scale_z = -scale_z;
+        col0 = -col0;
+        col1 = -col1;
+        col2 = -col2;
+    }
+    transform.scale = Vec3<double>{scale_x, scale_y, scale_z};
+
     Mat3<double> matrix{col0.x, col0.y, col0.z, col1.x, col1.y, col1.z, col2.x, col2.y, col2.z};
 
     transform.rotation = Rotation<double>::from_local_to_parent(matrix);
@@ -459,8 +471,11 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
         }
 
         // Assign emissive:
-        if (auto [tex, _] = load_material_texture_<TSpectral>(
-                ai_mat, aiTextureType_EMISSION_COLOR, ctx, false, false);
+        const aiTextureType emissive_type = ai_mat->GetTextureCount(aiTextureType_EMISSION_COLOR) > 0
+                                                ? aiTextureType_EMISSION_COLOR
+                                                : aiTextureType_EMISSIVE;
+        if (auto [tex, _] =
+                load_material_texture_<TSpectral>(ai_mat, emissive_type, ctx, false, true);
             tex) {
             material.set_emissive_image(tex.value());
         }
@@ -595,6 +610,23 @@ inline ImageBundle<float> load_mono_from_file_(const fs::path& filepath, bool re
 }
 
 /// Convert Image<RGB> to Image<Vec3<float>> (direct channel copy, for normal maps)
+/**
+ * @brief Converts an sRGB-encoded image to linear values, leaving linear images alone.
+ * @param bundle Image bundle to convert in place
+ */
+inline void linearize_srgb_(ImageBundle<RGB>& bundle)
+{
+    if (bundle.color_space != ColorSpaceHint::sRGB) {
+        return;
+    }
+    for (std::size_t i = 0; i < bundle.image.size(); ++i) {
+        bundle.image[i][0] = srgb_to_linear(bundle.image[i][0]);
+        bundle.image[i][1] = srgb_to_linear(bundle.image[i][1]);
+        bundle.image[i][2] = srgb_to_linear(bundle.image[i][2]);
+    }
+    bundle.color_space = ColorSpaceHint::Linear;
+}
+
 inline Image<Vec3<float>> rgb_to_vec3_(const Image<RGB>& rgb)
 {
     Image<Vec3<float>> result(rgb.width(), rgb.height());
@@ -611,7 +643,8 @@ template <IsSpectral TSpectral, typename TPixel>
 std::pair<Image<TPixel>, Image<float>>
 convert_embedded_raw_(const aiTexture* embedded,
                       const std::function<TSpectral(RGB)>& spectral_conversion,
-                      bool read_alpha = false)
+                      bool read_alpha = false,
+                      bool is_color_data = false)
 {
     const int w = static_cast<int>(embedded->mWidth);
     const int h = static_cast<int>(embedded->mHeight);
@@ -631,7 +664,9 @@ convert_embedded_raw_(const aiTexture* embedded,
             const float b = static_cast<float>(texel.b) * inv255;
 
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
-                result(x, y) = spectral_conversion(RGB{r, g, b});
+                result(x, y) = spectral_conversion(
+                    is_color_data ? RGB{srgb_to_linear(r), srgb_to_linear(g), srgb_to_linear(b)}
+                                  : RGB{r, g, b});
             } else if constexpr (std::is_same_v<TPixel, float>) {
                 // Luminance-weighted grayscale
                 result(x, y) = 0.2126f * r + 0.7152f * g + 0.0722f * b;
@@ -719,7 +754,9 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
 
     // Check deduplication cache
     auto& cache = get_texture_cache_<TPixel>(ctx);
-    auto cache_it = cache.find(tex_path_str);
+    // A texture loaded without its alpha channel does not serve those that need it
+    const std::string cache_key = tex_path_str + (read_alpha ? "|alpha" : "");
+    auto cache_it = cache.find(cache_key);
     if (cache_it != cache.end()) {
         main_handle = cache_it->second;
 
@@ -756,6 +793,9 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                 if constexpr (std::is_same_v<TPixel, TSpectral>) {
                     ImageBundle<RGB> bundle_rgb =
                         load_rgb_from_buffer_(data, size, format, read_alpha);
+                    if (is_color_data) {
+                        linearize_srgb_(bundle_rgb);
+                    }
                     bundle.image =
                         Image<TSpectral>(bundle_rgb.image.width(), bundle_rgb.image.height());
                     for (int y = 0; y < bundle_rgb.image.height(); ++y) {
@@ -784,7 +824,7 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         } else {
             try {
                 auto [raw_img, raw_alpha] = convert_embedded_raw_<TSpectral, TPixel>(
-                    embedded, ctx.spectral_conversion, read_alpha);
+                    embedded, ctx.spectral_conversion, read_alpha, is_color_data);
                 bundle.image = std::move(raw_img);
                 if (read_alpha && raw_alpha.width() > 0) {
                     bundle.alpha = std::move(raw_alpha);
@@ -814,13 +854,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
                 ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path, read_alpha);
 
-                if (is_color_data && bundle_rgb.color_space == ColorSpaceHint::sRGB) {
-                    for (std::size_t i = 0; i < bundle_rgb.image.size(); ++i) {
-                        bundle_rgb.image[i][0] = srgb_to_linear(bundle_rgb.image[i][0]);
-                        bundle_rgb.image[i][1] = srgb_to_linear(bundle_rgb.image[i][1]);
-                        bundle_rgb.image[i][2] = srgb_to_linear(bundle_rgb.image[i][2]);
-                    }
-                    bundle_rgb.color_space = ColorSpaceHint::Linear;
+                if (is_color_data) {
+                    linearize_srgb_(bundle_rgb);
                 }
 
                 bundle.image =
@@ -864,7 +899,7 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         }
         return ctx.scene->add_texture(std::move(bundle.image), tex_name);
     }();
-    cache.emplace(tex_path_str, handle);
+    cache.emplace(cache_key, handle);
     main_handle = handle;
 
     // Register Alpha Texture
-- 
2.43.0


From 3ba1e53ab531acc1f01605b3cc6ef3051673d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 36/50] fix: all render threads shared one shutter time and one
 light sampler, so renders raced and were not reproducible

---
 include/huira_impl/render/renderer.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 503949d..eaf92b0 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -137,7 +137,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -180,6 +179,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
@@ -232,7 +232,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -391,7 +391,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 6b5c2381fcdb46d6af5b8d01bc7a4d25883f2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 37/50] fix: rotation and scale of moving lights were discarded
 when interpolating their transforms

---
 include/huira_impl/render/renderer.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index eaf92b0..2560242 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -94,10 +94,11 @@ inline Transform<float> interpolate_transform(const std::vector<Transform<float>
     // Slerp rotation (assuming you are using glm::quat for rotations)
     auto quat = transforms[idx].rotation.local_to_parent_quaternion();
     auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    result.rotation =
+        Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
 
     // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
 
     return result;
 }
-- 
2.43.0


From eb79470e25ef296a936bb8b7409a4692051d2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 38/50] fix: multiple importance sampling weights did not sum
 to one at camera rays, media and the last bounce

---
 include/huira_impl/render/renderer.ipp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2560242..2bb4f5e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -191,7 +191,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                             float prev_roughness = 0.0f;
 
-                            float prev_bsdf_pdf = 1.0f;
+                            // 0: there is no density to weight against (camera ray or delta BSDF)
+                            float prev_bsdf_pdf = 0.0f;
                             Interaction<TSpectral> prev_isect;
 
                             MediumStack<TSpectral> medium_stack;
@@ -255,8 +256,16 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             float phase_val =
                                                 opt_mi->phase_function->evaluate(opt_mi->wo, ls.wi);
 
+                                            // Phase functions are sampled in proportion to their
+                                            // value. The last vertex spawns no ray to share with.
+                                            float mis_weight =
+                                                bounce + 1 < max_bounces_
+                                                    ? power_heuristic(ls.pdf, phase_val)
+                                                    : 1.0f;
+
                                             TSpectral Ld = throughput * (ls.Li / ls.pdf) *
-                                                           phase_val * shadow_transmittance;
+                                                           phase_val * mis_weight *
+                                                           shadow_transmittance;
 
                                             if (bounce == 0) {
                                                 direct_radiance += Ld;
@@ -274,6 +283,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else {
@@ -318,7 +328,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     // Only apply MIS weighting if this wasn't the first camera ray,
                                     // and if it wasn't a perfect mirror reflection (delta BSDF).
-                                    if (bounce > 0) {
+                                    if (prev_bsdf_pdf > 0.0f) {
                                         Transform<float> current_transform =
                                             interpolate_transform(light_instance.transforms, time);
 
@@ -329,7 +339,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     TSpectral final_radiance = throughput * Le * mis_weight;
 
-                                    if (bounce == 0) {
+                                    // A light found by the first bounce is the other half of the
+                                    // first vertex's light sampling, which is direct lighting
+                                    if (bounce <= 1) {
                                         direct_radiance += final_radiance;
                                     } else {
                                         indirect_radiance += final_radiance;
@@ -427,7 +439,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         float mis_weight = 1.0f;
                                         float bsdf_pdf = material->bsdf_pdf(
                                             isect.wo, ls.wi, {params, shading_isect});
-                                        mis_weight = power_heuristic(ls.pdf, bsdf_pdf);
+                                        // The last vertex spawns no ray to share the light with
+                                        if (bounce + 1 < max_bounces_) {
+                                            mis_weight = power_heuristic(ls.pdf, bsdf_pdf);
+                                        }
 
                                         // Multiply the final direct lighting by the transmittance
                                         TSpectral Ld = throughput * (ls.Li / ls.pdf) * f *
-- 
2.43.0


From 5bde6481d9210e30bc3dd89ed126277841339bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 39/50] fix: boundaries of media used up bounces and hid the
 surfaces behind them from shadow rays, depth and the other buffers

---
 include/huira_impl/render/renderer.ipp | 56 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2bb4f5e..9ada379 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -190,6 +190,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             TSpectral indirect_radiance{0};
 
                             float prev_roughness = 0.0f;
+                            float passed_distance = 0.0f; // To the last surface passed through
 
                             // 0: there is no density to weight against (camera ray or delta BSDF)
                             float prev_bsdf_pdf = 0.0f;
@@ -365,21 +366,26 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     // Evaluate material textures to get the opacity parameter:
                                     auto [params, shading_isect] = material->evaluate(isect);
 
-                                    if (params.opacity < 1.0f) {
-                                        if (sampler.get_1d() > params.opacity) {
-                                            Vec3<float> pass_through_normal =
-                                                (glm::dot(ray.direction(), isect.normal_g) < 0.0f)
-                                                    ? -isect.normal_g
-                                                    : isect.normal_g;
-                                            Vec3<float> pass_through_origin = offset_intersection_(
-                                                isect.position, pass_through_normal);
+                                    auto pass_through = [&]() {
+                                        Vec3<float> pass_through_normal =
+                                            (glm::dot(ray.direction(), isect.normal_g) < 0.0f)
+                                                ? -isect.normal_g
+                                                : isect.normal_g;
+                                        Vec3<float> pass_through_origin = offset_intersection_(
+                                            isect.position, pass_through_normal);
 
-                                            ray = Ray<TSpectral>(pass_through_origin,
-                                                                 ray.direction());
+                                        ray =
+                                            Ray<TSpectral>(pass_through_origin, ray.direction());
 
-                                            medium_stack.toggle(batch.primitive.get());
+                                        passed_distance += hit.t;
+                                        medium_stack.toggle(batch.primitive.get());
+
+                                        bounce--; // Don't count this towards bounce counts
+                                    };
 
-                                            bounce--; // Don't count this towards bounce counts
+                                    if (params.opacity < 1.0f) {
+                                        if (sampler.get_1d() > params.opacity) {
+                                            pass_through();
                                             continue;
                                         }
                                     }
@@ -389,11 +395,28 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         params.roughness =
                                             std::max(params.roughness, prev_roughness);
                                     }
+
+                                    // Sample the BSDF:
+                                    float u1 = sampler.get_1d();
+                                    float u2 = sampler.get_1d();
+
+                                    BSDFSample<TSpectral> bs = material->bsdf_sample(
+                                        isect.wo, {params, shading_isect}, u1, u2);
+
+                                    // A boundary that lets the ray continue unchanged is not a
+                                    // vertex of the path: shadow rays cross it as well
+                                    if (bs.is_valid() && bs.is_delta &&
+                                        glm::dot(bs.wi, isect.wo) < -0.99999f) {
+                                        throughput = throughput * bs.value;
+                                        pass_through();
+                                        continue;
+                                    }
                                     prev_roughness = params.roughness;
 
                                     // Record primary ray info:
                                     if (bounce == 0) {
-                                        closest_depth = std::min(closest_depth, hit.t);
+                                        closest_depth =
+                                            std::min(closest_depth, passed_distance + hit.t);
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
@@ -454,13 +477,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         }
                                     }
 
-                                    // Sample the BSDF:
-                                    float u1 = sampler.get_1d();
-                                    float u2 = sampler.get_1d();
-
-                                    BSDFSample<TSpectral> bs = material->bsdf_sample(
-                                        isect.wo, {params, shading_isect}, u1, u2);
-
                                     if (!bs.is_valid()) {
                                         break;
                                     }
-- 
2.43.0


From 5078803bc2f760534e0821149d1fd7909b414722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 40/50] fix: light emitted by surfaces was never added to the
 image

---
 include/huira_impl/render/renderer.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 9ada379..a576f70 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -421,6 +421,13 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         albedo_total += params.albedo;
                                     }
 
+                                    // Light emitted by the surface itself:
+                                    if (bounce == 0) {
+                                        direct_radiance += throughput * params.emission;
+                                    } else {
+                                        indirect_radiance += throughput * params.emission;
+                                    }
+
                                     // Direct lighting (next event estimation)
                                     for (const auto& light_instance : lights) {
                                         Transform<float> current_transform =
-- 
2.43.0


From 7b5cb0207dabf29ab8b04bfd8b5076751bf6a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 41/50] fix: mesh ids, normals and direct/indirect power
 buffers held other values than named, and NaN in one band reached the image

---
 include/huira/render/frame_buffer.hpp  | 24 +++++++++++++------
 include/huira_impl/render/renderer.ipp | 33 ++++++++++++++++----------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..f1476e0 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) {
+            enable_received_power(); // Sensor response requires received power
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
@@ -96,6 +98,12 @@ class FrameBuffer {
         if (has_world_normals()) {
             world_normals_.fill(Vec3<float>{0, 0, 0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
@@ -115,6 +123,8 @@ class FrameBuffer {
     Image<Vec3<float>> camera_normals_;
     Image<Vec3<float>> world_normals_;
 
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<TSpectral> received_power_;
     Image<SensorT> sensor_response_;
 
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a576f70..005bb3b 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -58,7 +58,9 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
         }
     }
 
-    this->get_camera(scene_view)->readout(frame_buffer, scene_view.duration());
+    if (frame_buffer.has_sensor_response()) {
+        this->get_camera(scene_view)->readout(frame_buffer, scene_view.duration());
+    }
 }
 
 inline float power_heuristic(float f_pdf, float g_pdf)
@@ -352,10 +354,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     break;
                                 } else {
 
-                                    if (s == 0) {
-                                        geometry_id = hit.geom_id;
-                                    }
-
                                     // Resolve full shading data:
                                     Interaction<TSpectral> isect = scene_view.resolve_hit(ray, hit);
 
@@ -417,6 +415,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     if (bounce == 0) {
                                         closest_depth =
                                             std::min(closest_depth, passed_distance + hit.t);
+                                        if (geometry_id ==
+                                            std::numeric_limits<std::size_t>::max()) {
+                                            geometry_id = batch.primitive->geometry->id();
+                                        }
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
@@ -529,7 +531,11 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                             TSpectral sample_radiance = direct_radiance + indirect_radiance;
 
-                            if (std::isnan(sample_radiance[0])) {
+                            bool is_nan = false;
+                            for (std::size_t c = 0; c < TSpectral::size(); ++c) {
+                                is_nan = is_nan || std::isnan(sample_radiance[c]);
+                            }
+                            if (is_nan) {
                                 continue;
                             }
 
@@ -559,13 +565,17 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
                             }
                         }
-                        float inv_spp = 1.0f / static_cast<float>(samples_taken);
+                        float inv_spp =
+                            samples_taken > 0 ? 1.0f / static_cast<float>(samples_taken) : 0.0f;
 
                         // Average over samples and write to frame buffer:
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
                         TSpectral direct_radiance = pixel_direct_radiance * inv_spp;
                         TSpectral indirect_radiance = pixel_indirect_radiance * inv_spp;
-                        Vec3<float> avg_camera_normals = glm::normalize(camera_normals * inv_spp);
+                        Vec3<float> avg_camera_normals{0};
+                        if (glm::dot(camera_normals, camera_normals) > 0.0f) {
+                            avg_camera_normals = glm::normalize(camera_normals);
+                        }
 
                         if (frame_buffer.has_depth()) {
                             if (closest_depth < std::numeric_limits<float>::infinity()) {
@@ -587,8 +597,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                         if (frame_buffer.has_world_normals()) {
                             frame_buffer.world_normals()(x, y) =
-                                scene_view.camera_to_world_[0].apply_to_direction(
-                                    avg_camera_normals);
+                                scene_view.camera_to_world_[0].rotation * avg_camera_normals;
                         }
 
                         if (frame_buffer.has_received_direct_power()) {
@@ -610,7 +619,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
             }
         });
 
-    if (frame_buffer.has_received_power() && camera->convolve_psf_) {
+    if (frame_buffer.has_received_power() && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
@@ -1048,7 +1057,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                           }
                       });
 
-    if (use_defocus && camera->convolve_psf_) {
+    if (use_defocus && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
-- 
2.43.0


From bb016fe8904a0947bdb9807757cb230ba5dbb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 42/50] fix: the background turned with the camera, and world
 normals were rotated the wrong way

---
 include/huira_impl/render/renderer.ipp  | 7 +++++--
 include/huira_impl/scene/scene_view.ipp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 005bb3b..4e7893d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -300,8 +300,11 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
 
                                 if (!hit.hit()) {
-                                    // Sample environment map using ray direction
-                                    Vec3<float> d = glm::normalize(ray.direction());
+                                    // Sample environment map using the ray direction in the world
+                                    const Transform<float> to_world =
+                                        interpolate_transform(scene_view.camera_to_world_, time);
+                                    Vec3<float> d =
+                                        glm::normalize(to_world.rotation * ray.direction());
                                     float u =
                                         0.5f + std::atan2(d.z, d.x) * (0.5f * INV_PI<float>());
                                     float v = 0.5f - std::asin(std::clamp(d.y, -1.0f, 1.0f)) *
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index dc16d53..acffe03 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -62,7 +62,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(obs_ssb);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From 0b67993bbe59b4af4ef1ba541aa8925f6850c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 43/50] fix: point sources were not hidden by surfaces unless a
 depth buffer was kept, were drawn half a pixel off, and kept their full
 exposure however briefly they were in the image

---
 include/huira_impl/cameras/camera_model.ipp | 11 +--
 include/huira_impl/render/renderer.ipp      | 76 +++++++++++++++------
 2 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index fd3963e..92d7f07 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -794,11 +794,12 @@ void CameraModel<TSpectral>::compute_frustum_()
     }
 
     // Widen by the rounding of the slopes, so that the border itself is inside
-    auto widen = [](float slope) { return 1e-6f * (1.f + std::abs(slope)); };
-    left -= widen(left);
-    right += widen(right);
-    top -= widen(top);
-    bottom += widen(bottom);
+    float widen_x = 1e-6f * std::max(std::abs(left), std::abs(right));
+    float widen_y = 1e-6f * std::max(std::abs(top), std::abs(bottom));
+    left -= widen_x;
+    right += widen_x;
+    top -= widen_y;
+    bottom += widen_y;
 
     // Form the frustum planes:
     Vec3<float> left_normal = glm::normalize(xdir - left * zdir);
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 4e7893d..5f1ea36 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -34,10 +34,20 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
 
     frame_buffer.clear();
 
+    // Surfaces hide the point sources behind them, which takes their depth
+    const bool needs_depth = frame_buffer.has_received_power() && !frame_buffer.has_depth();
+    if (needs_depth) {
+        frame_buffer.enable_depth();
+    }
+
     Image<TSpectral> ray_traced_power = this->path_trace_(scene_view, frame_buffer);
 
     Image<TSpectral> star_power = this->render_unresolved_(scene_view, frame_buffer);
 
+    if (needs_depth) {
+        frame_buffer.enable_depth(false);
+    }
+
     if (frame_buffer.has_received_power()) {
         frame_buffer.received_power() = ray_traced_power + star_power;
     }
@@ -638,28 +648,41 @@ template <IsSpectral TSpectral>
 struct RenderItem {
     RenderItem(TrajectoryArc set_arc,
                std::vector<TSpectral> set_irradiance,
-               int set_effective_radius)
+               int set_effective_radius,
+               std::vector<float> set_distance = {})
         : arc(std::move(set_arc)), irradiance(std::move(set_irradiance)),
-          effective_radius(set_effective_radius)
+          effective_radius(set_effective_radius), distance(std::move(set_distance))
     {
     }
 
     TrajectoryArc arc;
     std::vector<TSpectral> irradiance;
     int effective_radius;
+    std::vector<float> distance; ///< At each sample; empty for sources at infinity
+
+    TSpectral interpolate_irradiances(float t) const { return interpolate_(irradiance, t); }
 
-    TSpectral interpolate_irradiances(float t) const
+    float interpolate_distances(float t) const
     {
-        if (irradiance.size() == 1) {
-            return irradiance[0];
+        if (distance.empty()) {
+            return std::numeric_limits<float>::infinity();
         }
+        return interpolate_(distance, t);
+    }
 
-        float scaled = t * static_cast<float>(irradiance.size() - 1);
+    template <typename T>
+    static T interpolate_(const std::vector<T>& values, float t)
+    {
+        if (values.size() == 1) {
+            return values[0];
+        }
+
+        float scaled = t * static_cast<float>(values.size() - 1);
         std::size_t lo = static_cast<std::size_t>(std::floor(scaled));
-        lo = std::min(lo, irradiance.size() - 2);
+        lo = std::min(lo, values.size() - 2);
         float frac = scaled - static_cast<float>(lo);
 
-        return irradiance[lo] + frac * (irradiance[lo + 1] - irradiance[lo]);
+        return values[lo] + frac * (values[lo + 1] - values[lo]);
     }
 
     float max_irradiance() const
@@ -738,12 +761,14 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     for (const auto& instance : scene_view.unresolved_objects_) {
         std::vector<Vec3<float>> directions(instance.transforms.size());
         std::vector<TSpectral> irradiances(instance.transforms.size());
+        std::vector<float> distances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
             irradiances[i] = instance.irradiances[i];
+            distances[i] = glm::length(instance.transforms[i].position);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back({arc, irradiances, stamp_radius, distances});
     }
 
     if (items.empty()) {
@@ -789,6 +814,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         float weight;
         TSpectral irradiance;
         Vec3<float> direction;
+        float distance;
     };
 
     std::vector<std::vector<ProjectedItem>> tile_bins(static_cast<std::size_t>(num_tiles));
@@ -871,21 +897,27 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // the exposure spans [0, 1]
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
                 Vec3<float> dir = arc.evaluate(params[k]);
-                const Pixel& p = pixels[k];
-                if (p.x < 0.f || p.x > res_x || p.y < 0.f || p.y > res_y) {
+                Pixel p = pixels[k];
+                // Intervals end on the border of the image, give or take rounding
+                constexpr float BORDER = 1e-2f;
+                if (!(p.x >= -BORDER && p.x <= res_x + BORDER && p.y >= -BORDER &&
+                      p.y <= res_y + BORDER)) {
                     continue;
                 }
+                p.x = std::clamp(p.x, 0.f, std::nextafter(res_x, 0.f));
+                p.y = std::clamp(p.y, 0.f, std::nextafter(res_y, 0.f));
+                float distance = item.interpolate_distances(params[k]);
 
                 int tx = std::clamp(static_cast<int>(p.x) / TILE_SIZE, 0, tiles_x - 1);
                 int ty = std::clamp(static_cast<int>(p.y) / TILE_SIZE, 0, tiles_y - 1);
 
                 tile_bins[static_cast<std::size_t>(ty * tiles_x + tx)].push_back(
-                    {i, p, weight, irrad, dir});
+                    {i, p, weight, irrad, dir, distance});
             }
         }
     }
@@ -894,7 +926,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    // The pixel whose center is nearest below a source may lie in the previous tile
+    int margin = stamp_radius + 1;
 
     struct TileBuffer {
         Image<TSpectral> buf;
@@ -936,7 +969,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        if (depth_buffer(star_p) < proj.distance) {
                             unobstructed = false;
                         }
                     }
@@ -948,10 +981,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                     TSpectral power = proj.weight * proj.irradiance * projected_area;
 
                     if (stamp_radius > 0) {
-                        float floor_x = std::floor(star_p.x);
-                        float floor_y = std::floor(star_p.y);
-                        float frac_x = star_p.x - floor_x;
-                        float frac_y = star_p.y - floor_y;
+                        // Kernels are centered on pixel centers, which lie at half-integers
+                        float floor_x = std::floor(star_p.x - 0.5f);
+                        float floor_y = std::floor(star_p.y - 0.5f);
+                        float frac_x = star_p.x - 0.5f - floor_x;
+                        float frac_y = star_p.y - 0.5f - floor_y;
 
                         int eff_r = item.effective_radius;
 
@@ -1008,8 +1042,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                             }
                         }
                     } else {
-                        int px = static_cast<int>(std::round(star_p.x));
-                        int py = static_cast<int>(std::round(star_p.y));
+                        int px = static_cast<int>(star_p.x);
+                        int py = static_cast<int>(star_p.y);
                         if (px >= local_x0 && px < local_x1 && py >= local_y0 && py < local_y1) {
                             local_buf(px - local_x0, py - local_y0) += power;
                         }
-- 
2.43.0


From 44c724f886389bac57135972be98340c006df63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 44/50] fix: convolving images in two threads at once corrupted
 the planner of FFTW

---
 include/huira_impl/images/image.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index dd89e41..cf7d768 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstring>
 #include <limits>
+#include <mutex>
 #include <stdexcept>
 
 #include "fftw3.h"
@@ -680,6 +681,13 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
     *this = std::move(result);
 }
 
+/// FFTW may execute plans in several threads at once, but not create or destroy them
+inline std::mutex& fftw_planner_mutex()
+{
+    static std::mutex mutex;
+    return mutex;
+}
+
 template <IsImagePixel PixelT>
 void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
 {
@@ -703,9 +711,11 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     fftwf_complex* freq_b = fftwf_alloc_complex(complex_size);
 
     // Create plans (FFTW_ESTIMATE avoids overwriting input during planning)
+    std::unique_lock<std::mutex> planner_lock(fftw_planner_mutex());
     fftwf_plan fwd_a = fftwf_plan_dft_r2c_2d(ph, pw, buf_a, freq_a, FFTW_ESTIMATE);
     fftwf_plan fwd_b = fftwf_plan_dft_r2c_2d(ph, pw, buf_b, freq_b, FFTW_ESTIMATE);
     fftwf_plan inv = fftwf_plan_dft_c2r_2d(ph, pw, freq_a, buf_a, FFTW_ESTIMATE);
+    planner_lock.unlock();
 
     const float norm = 1.0f / static_cast<float>(pw * ph);
     constexpr std::size_t num_channels = ImagePixelTraits<PixelT>::channels;
@@ -780,9 +790,11 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     }
 
     // Cleanup
+    planner_lock.lock();
     fftwf_destroy_plan(fwd_a);
     fftwf_destroy_plan(fwd_b);
     fftwf_destroy_plan(inv);
+    planner_lock.unlock();
     fftwf_free(buf_a);
     fftwf_free(buf_b);
     fftwf_free(freq_a);
-- 
2.43.0


From 37e787ea3a58e86180a4bcfca9f14696ddbf0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 45/50] fix: samples at the end of the last pixel could round
 out of the image and abort the render

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 5f1ea36..10c5b22 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -184,9 +184,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                         float inv_samples = 0.0f;
 
                         for (int s = 0; s < spp_; ++s) {
-                            // Jittered sub-pixel sample:
+                            // Jittered sub-pixel sample. The sum can round up to the next
+                            // pixel, which for the last one lies outside the image:
                             float sx = static_cast<float>(x) + sampler.get_1d();
                             float sy = static_cast<float>(y) + sampler.get_1d();
+                            sx = std::min(sx, std::nextafter(static_cast<float>(x + 1), 0.f));
+                            sy = std::min(sy, std::nextafter(static_cast<float>(y + 1), 0.f));
 
                             // Generate camera ray from pixel coordinates:
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
-- 
2.43.0


From bf5342676af700efa182df6b5607a7368366063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 46/50] fix: Resolution division by double vectors and scalars,
 and scalar / resolution, gave wrong values

---
 include/huira/core/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira/core/types.hpp b/include/huira/core/types.hpp
index c2938ca..aee35da 100644
--- a/include/huira/core/types.hpp
+++ b/include/huira/core/types.hpp
@@ -162,13 +162,13 @@ struct Resolution {
     }
 
     template <IsFloatingPoint TFloat>
-    Vec2<float> operator/(const Vec2<TFloat>& v) const
+    Vec2<TFloat> operator/(const Vec2<TFloat>& v) const
     {
         return Vec2<TFloat>(static_cast<TFloat>(width) / v.x, static_cast<TFloat>(height) / v.y);
     }
 
     template <IsFloatingPoint TFloat>
-    Vec2<float> operator/(TFloat s) const
+    Vec2<TFloat> operator/(TFloat s) const
     {
         return Vec2<TFloat>(static_cast<TFloat>(width) / s, static_cast<TFloat>(height) / s);
     }
@@ -203,6 +203,6 @@ inline Vec2<TFloat> operator/(const Vec2<TFloat>& v, const Resolution& res)
 template <IsFloatingPoint TFloat>
 inline Vec2<TFloat> operator/(TFloat s, const Resolution& res)
 {
-    return Vec2<TFloat>(static_cast<TFloat>(res.width) / s, static_cast<TFloat>(res.height) / s);
+    return Vec2<TFloat>(s / static_cast<TFloat>(res.width), s / static_cast<TFloat>(res.height));
 }
 } // namespace huira
-- 
2.43.0


From 21659817e3c1842508b6f2e2c4876d3240c70089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:32 +0000
Subject: [PATCH 47/50] fix: lamps let the light of other lamps through: shadow
 rays crossed every light

---
 include/huira/scene/scene_view.hpp      | 12 +++++++-----
 include/huira_impl/render/renderer.ipp  | 10 ++++++++--
 include/huira_impl/scene/scene_view.ipp | 15 ++++++++++++---
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index 3cbd429..0600d82 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -46,11 +46,13 @@ class SceneView {
     [[nodiscard]] HitRecord
     intersect(const Ray<TSpectral>& ray, float time = 0.5f, unsigned int mask = 0xFFFFFFFF) const;
 
-    [[nodiscard]] TSpectral evaluate_transmittance(const Ray<TSpectral>& shadow_ray,
-                                                   float t_far,
-                                                   const MediumStack<TSpectral>& initial_stack,
-                                                   RandomSampler<float>& sampler,
-                                                   float time = 0.5f) const;
+    [[nodiscard]] TSpectral
+    evaluate_transmittance(const Ray<TSpectral>& shadow_ray,
+                           float t_far,
+                           const MediumStack<TSpectral>& initial_stack,
+                           RandomSampler<float>& sampler,
+                           float time = 0.5f,
+                           const LightInstance<TSpectral>* target = nullptr) const;
 
     [[nodiscard]] Interaction<TSpectral> resolve_hit(const Ray<TSpectral>& ray,
                                                      const HitRecord& hit) const;
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 10c5b22..01383d4 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -264,7 +264,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                                   ls.distance,
                                                                                   medium_stack,
                                                                                   sampler,
-                                                                                  time);
+                                                                                  time,
+                                                                                  &light_instance);
 
                                             if (shadow_transmittance.max() <= 0.0f) {
                                                 continue;
@@ -473,7 +474,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             offset_intersection_(isect.position, shadow_normal);
                                         Ray<TSpectral> shadow_ray(shadow_origin, ls.wi);
                                         TSpectral transmittance = scene_view.evaluate_transmittance(
-                                            shadow_ray, light_dist, medium_stack, sampler, time);
+                                            shadow_ray,
+                                            light_dist,
+                                            medium_stack,
+                                            sampler,
+                                            time,
+                                            &light_instance);
                                         if (transmittance.max() <= 0.0f) {
                                             continue;
                                         }
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index acffe03..48101e1 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -223,6 +223,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
  * @brief Evaluate transmission along a ray
  * @param ray The ray to intersect.
  * @param time The time for motion blur.
+ * @param target The light the ray leads to, if any. All other lights block it.
  * @return The spectral transmission
  */
 template <IsSpectral TSpectral>
@@ -230,18 +231,26 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
                                                        float t_far,
                                                        const MediumStack<TSpectral>& initial_stack,
                                                        RandomSampler<float>& sampler,
-                                                       float time) const
+                                                       float time,
+                                                       const LightInstance<TSpectral>* target) const
 {
     TSpectral transmittance{1.0f};
     Ray<TSpectral> current_ray = ray;
     float distance_remaining = t_far;
 
     MediumStack<TSpectral> stack = initial_stack;
+    const uint32_t mask = target != nullptr ? MASK_GEOMETRY_ | MASK_LIGHT_ : MASK_GEOMETRY_;
 
     while (distance_remaining > 0.0f) {
-        HitRecord hit = this->intersect(current_ray, time, MASK_GEOMETRY_);
+        HitRecord hit = this->intersect(current_ray, time, mask);
 
-        const bool surface_in_range = hit.hit() && hit.t < distance_remaining;
+        bool surface_in_range = hit.hit() && hit.t < distance_remaining;
+        if (surface_in_range && instance_mappings_[hit.inst_id].type == GeometryType::Light) {
+            if (&lights_[instance_mappings_[hit.inst_id].light_index] != target) {
+                return TSpectral{0.0f};
+            }
+            surface_in_range = false; // The ray has arrived
+        }
         const float segment_length = surface_in_range ? hit.t : distance_remaining;
 
         if (const Medium<TSpectral>* active = stack.top(); active != nullptr) {
-- 
2.43.0


From 9d06223d86318a9aeab2a48ddadffd7f7d2043ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 48/50] fix: light an unresolved object by the placed instance
 of the light it was given, not by the first instance of the same light asset

---
 include/huira/scene/scene_view_types.hpp                    | 4 ++++
 .../huira_impl/assets/unresolved/unresolved_asteroid.ipp    | 4 +++-
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp  | 4 +++-
 include/huira_impl/scene/scene_view.ipp                     | 6 ++++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 65da92b..261688b 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -8,6 +8,9 @@
 
 namespace huira {
 // Forward declarations
+template <IsSpectral TSpectral>
+class Instance;
+
 template <IsSpectral TSpectral>
 class Light;
 
@@ -25,6 +28,7 @@ template <IsSpectral TSpectral>
 struct LightInstance {
     std::shared_ptr<Light<TSpectral>> light;
     std::vector<Transform<float>> transforms; // Transform at N times
+    const Instance<TSpectral>* instance = nullptr; // Node that places the light, where known
 };
 
 /**
diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index 919a9f1..a1c156d 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -153,7 +153,9 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
 {
     // TODO Only first element of Light Transforms is used.
     for (const auto& light_inst : lights) {
-        if (light_inst.light.get() == light_) {
+        // The same light may be placed several times
+        if (light_inst.light.get() == light_ &&
+            (light_inst.instance == nullptr || light_inst.instance == light_instance_.get())) {
             Vec3<double> to_obs = -self_transform.position;
             Vec3<double> to_light = light_inst.transforms[0].position - self_transform.position;
 
diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 41bd5cc..f2e7033 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -130,7 +130,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
 {
     // TODO Only first element of Light Transforms is used.
     for (const auto& light_inst : lights) {
-        if (light_inst.light.get() == light_) {
+        // The same light may be placed several times
+        if (light_inst.light.get() == light_ &&
+            (light_inst.instance == nullptr || light_inst.instance == light_instance_.get())) {
             Vec3<float> L =
                 glm::normalize(light_inst.transforms[0].position - self_transform.position);
 
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 48101e1..625a6a1 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -454,6 +454,9 @@ void SceneView<TSpectral>::traverse_and_collect_(
         const auto& asset_var = instance->asset();
         std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, render_transforms); },
                    asset_var);
+        if (std::holds_alternative<Light<TSpectral>*>(asset_var)) {
+            lights_.back().instance = instance.get();
+        }
     }
 
     for (const auto& child : node->get_children()) {
@@ -609,6 +612,9 @@ void SceneView<TSpectral>::traverse_model_graph_(
         const auto& asset_var = instance->asset();
         std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, current_transforms); },
                    asset_var);
+        if (std::holds_alternative<Light<TSpectral>*>(asset_var)) {
+            lights_.back().instance = instance.get();
+        }
     }
 
     for (const auto& child : node->get_children()) {
-- 
2.43.0


From b34c884722851c9e6ee20fe982facf921dd63ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 49/50] fix: refuse FITS files with a fourth or later axis
 longer than one instead of silently reading their first plane

---
 include/huira_impl/images/io/fits_io.ipp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index a8dde96..df5a4d7 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -447,9 +447,10 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     // --- Image dimensions & type ---
     int bitpix = 0;
     int naxis = 0;
-    long naxes[3] = {0, 0, 0};
+    constexpr int max_naxis = 999; // Largest NAXIS of the FITS standard
+    std::vector<long> naxes(max_naxis, 0L);
 
-    fits_get_img_param(ff.fptr, 3, &bitpix, &naxis, naxes, &status);
+    fits_get_img_param(ff.fptr, max_naxis, &bitpix, &naxis, naxes.data(), &status);
     detail::fits_check(status, "get image params");
 
     if (naxis < 2) {
@@ -465,9 +466,13 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     //         long fpixel[3] = {1, 1, plane + 1};
     //         fits_read_pix(fptr, TFLOAT, fpixel, w*h, ...);
     //     }
-    if (naxis >= 3 && naxes[2] > 1) {
-        HUIRA_THROW_ERROR("FITS file is a data cube (NAXIS3=" + std::to_string(naxes[2]) +
-                          ").  Use read_image_fits_cube() for multi-band images.");
+    const std::size_t num_axes = std::min(static_cast<std::size_t>(naxis), naxes.size());
+    for (std::size_t axis = 2; axis < num_axes; ++axis) {
+        if (naxes[axis] > 1) {
+            HUIRA_THROW_ERROR("FITS file is a data cube (NAXIS" + std::to_string(axis + 1) + "=" +
+                              std::to_string(naxes[axis]) +
+                              ").  Use read_image_fits_cube() for multi-band images.");
+        }
     }
 
     constexpr long max_dimension = std::numeric_limits<int>::max();
-- 
2.43.0


From 7cca26bb8420c4973dd8f6bc13a6ed4bec39a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 50/50] fix: give a magnitude's reference photon flux the
 spectrum of sunlight instead of taking the Planck energy curve for photon
 counts

---
 include/huira_impl/core/physics.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index e4e58da..7f04560 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -174,10 +174,10 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
     std::vector<double> vband_response = johnson_vband_approximation(N, vband_lambda);
     std::vector<double> solar_fine = plancks_law(5778.0, vband_lambda);
 
-    // V-baband weighted solar radiance:
+    // V-band weighted solar photon radiance:
     std::vector<double> weighted(N);
     for (std::size_t i = 0; i < N; ++i) {
-        weighted[i] = solar_fine[i] * vband_response[i];
+        weighted[i] = solar_fine[i] * vband_response[i] / photon_energy(vband_lambda[i]);
     }
     double solar_vband_weighted = integrate(vband_lambda, weighted);
 
@@ -187,8 +187,11 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
     // Scale the solar template so that its V-band part carries the observed flux:
     double scale = observed_vband_flux / solar_vband_weighted;
 
-    TSpectral photon_counts = solar_template * static_cast<float>(scale) * albedo;
-    TSpectral irradiance = photon_counts * TSpectral::photon_energies();
+    TSpectral irradiance{0};
+    for (std::size_t i = 0; i < irradiance.size(); ++i) {
+        irradiance[i] =
+            static_cast<float>(static_cast<double>(solar_template[i]) * scale) * albedo[i];
+    }
     return irradiance;
 }
 
-- 
2.43.0

