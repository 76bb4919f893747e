From b417c7b171e5c4dbe8bd4c66809e6591a6ec60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 01/62] fix: accel::sahbvh build and queries on scenes without
 triangles

build() requested 2*0-1 nodes and threw std::length_error for a scene without
any triangle (e.g., only an environment light). Leave the hierarchy empty and
report no hit instead.
---
 src/accel/accel_sahbvh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..1fad896 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -153,6 +153,12 @@ public:
         // --------------------------------------------------------------------
 
         const int nt = int(trs_.size()); // Number of triangles
+        if (nt == 0) {
+            // No geometry. Leave the hierarchy empty.
+            nodes_.clear();
+            indices_.clear();
+            return;
+        }
         struct Entry {
             int index;
             int start;
@@ -271,7 +277,7 @@ public:
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
         int s[99]{};
-        int si = 0;
+        int si = nodes_.empty() ? -1 : 0;
         while (si >= 0) {
             auto& n = nodes_.at(s[si--]);
             if (!n.b.isect(ray, tmin, tmax)) {
-- 
2.43.0


From 2338ad3dd2a4b24390bd468d8f37deeb7c2fff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:48 +0000
Subject: [PATCH 02/62] fix: accel::sahbvh traversal stack overflow on deep
 hierarchies

The traversal stack was a fixed array of 99 entries. Scenes whose triangles form
a geometric progression produce deeper hierarchies and smashed the stack.
---
 src/accel/accel_sahbvh.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 1fad896..40f6eb6 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -276,16 +276,20 @@ public:
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
-        int s[99]{};
-        int si = nodes_.empty() ? -1 : 0;
-        while (si >= 0) {
-            auto& n = nodes_.at(s[si--]);
+        thread_local std::vector<int> s;  // Traversal stack (the hierarchy can be arbitrarily deep)
+        s.clear();
+        if (!nodes_.empty()) {
+            s.push_back(0);
+        }
+        while (!s.empty()) {
+            auto& n = nodes_.at(s.back());
+            s.pop_back();
             if (!n.b.isect(ray, tmin, tmax)) {
                 continue;
             }
             if (!n.leaf) {
-                s[++si] = n.c1;
-                s[++si] = n.c2;
+                s.push_back(n.c1);
+                s.push_back(n.c2);
                 continue;
             }
             for (int i = n.s; i < n.e; i++) {
-- 
2.43.0


From e3768e0de6ca13b845597ec68ae8f1b136402791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:35 +0000
Subject: [PATCH 03/62] fix: Scene::build() without acceleration structure
 crashed

Dereferenced the null accelerator; raise the existing 'missing acceleration
structure' error instead.
---
 src/scene.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..a125a9d 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -272,6 +272,8 @@ public:
     }
 
     virtual void build() override {
+        require_accel();
+
         // Update light indices
         // We keep the global transformation of the light primitive as well as the references.
         // We need to recompute the indices when an update of the scene happens,
-- 
2.43.0


From ea0f2b8d52be3d093df2f82b2b5c196916a39eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 04/62] fix: weight of the alpha-mask component of the OBJ
 mixture material

sample_direction() computed f/p (= 1-alpha) but returned 1, so together with the
component selection weight 1/(1-alpha) light passing a partially transparent
surface was amplified.
---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..74b9bcb 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -471,7 +471,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From 35f06c76f2617d86ab121aca4a9f3c56c0d63a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:38 +0000
Subject: [PATCH 05/62] fix: density of area lights under scaling transforms

---
 src/light/light_area.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..fe7669d 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,10 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    Float tranformed_invA(const PointGeometry& geom, const Transform& transform) const {
+        // The change of area depends on the orientation of the surface.
+        // A surface element with (transformed) unit normal n is scaled by J / |M_lin^T n|.
+        return invA_ * glm::length(glm::transpose(Mat3(transform.M)) * geom.gn) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +77,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL, transform);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +131,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL, transform);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(geom, transform);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +164,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(geomL, transform) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 874f97184c286b9f09a8e823a257941f164494ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 06/62] fix: normalization of distributions without weight
 produced NaN

---
 include/lm/math.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..73ebca0 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -345,6 +345,9 @@ struct Dist {
     */
     void norm() {
         const auto sum = c.back();
+        if (sum == 0_f) {
+            return;
+        }
         for (auto& v : c) {
             v /= sum;
         }
-- 
2.43.0


From 4ad6ee1e8353fafbf1c7ffc6d5714ce1865957ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:51 +0000
Subject: [PATCH 07/62] fix: sampling weights of light::env were negative in
 the last row

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..ae4db75 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -67,7 +67,7 @@ public:
             const int x = i % w;
             const int y = i / w;
             const auto v = envmap_->eval_by_pixel_coords(x, y) * scale_;
-            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(i) / w + .5_f) / h);
+            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(y) + .5_f) / h);
         }
         dist_.init(ls, w, h);
     }
-- 
2.43.0


From e5f009c9bfd85e3f8ec936ca01a1797b3dc8521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 08/62] fix: ray density of light::directional when evaluating
 the delta function

---
 src/light/light_directional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_directional.cpp b/src/light/light_directional.cpp
index c8948de..4ee8112 100644
--- a/src/light/light_directional.cpp
+++ b/src/light/light_directional.cpp
@@ -69,7 +69,7 @@ public:
 
     virtual Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool eval_delta) const override {
         const auto pA = 1_f / (Pi * sphere_bound_.radius * sphere_bound_.radius);
-        return eval_delta ? 1_f : pA;
+        return eval_delta ? 0_f : pA;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 40114e5e50973c845fe93bb8ae16efa8a36745a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:56 +0000
Subject: [PATCH 09/62] fix: light::env returned the upper pole's texel for the
 lower pole

---
 src/light/light_env.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index ae4db75..3039b3f 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -198,7 +198,9 @@ public:
             return at < 0_f ? at + 2_f * Pi : at;
         }();
         const auto t = (at - rot_) * .5_f / Pi;
-        return envmap_->eval({ t - floor(t), acos(d.y) / Pi }) * scale_;
+        // Keep the lower pole in the last row because the texture lookup wraps around at one
+        const auto v = std::acos(std::clamp(d.y, -1_f, 1_f)) / Pi;
+        return envmap_->eval({ t - floor(t), std::min(v, std::nextafter(1_f, 0_f)) }) * scale_;
     }
 };
 
-- 
2.43.0


From 060a060c1f251d326907d7886c2766274a7b9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:01 +0000
Subject: [PATCH 10/62] fix: camera::pinhole direct sampling gave importance to
 directions outside of the view

---
 src/camera/camera_pinhole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..76c542b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -182,7 +182,7 @@ public:
         }
         const auto geomE = PointGeometry::make_degenerated(position_);
         const auto wo = glm::normalize(geom.p - position_);
-        const auto We = Vec3(J(wo));
+        const auto We = eval(wo);
         const auto p = pdf_direct(geom, geomE, wo);
         if (p == 0_f) {
             return {};
-- 
2.43.0


From 515add8cbfb40f6a97908b03e57f48dcf3e8591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 11/62] fix: camera::pinhole left look-at parameters
 uninitialized when given a matrix

---
 src/camera/camera_pinhole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 76c542b..369f03b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
-- 
2.43.0


From db706fb6ed7a0785f27f7368382e6a5d76935e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 12/62] fix: initializing a 2d distribution twice kept the
 previous marginal distribution

---
 include/lm/math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 73ebca0..f9da21a 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -400,6 +400,7 @@ struct Dist2 {
         w = cols;
         h = rows;
         ds.assign(h, {});
+        m.clear();
         for (int i = 0; i < h; i++) {
             auto& d = ds[i];
             for (int j = 0; j < w; j++) {
-- 
2.43.0


From 44e53aad618bcc36315e2fcde9ca864754fce730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:29 +0000
Subject: [PATCH 13/62] fix: bound of volume::gaussian cut off wide
 distributions

---
 src/volume/volume_gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_gaussian.cpp b/src/volume/volume_gaussian.cpp
index 1fc4cee..9789f3a 100644
--- a/src/volume/volume_gaussian.cpp
+++ b/src/volume/volume_gaussian.cpp
@@ -51,7 +51,7 @@ public:
     Bound computeBound(const Vec3 &sigma) const {
         auto compAC = [&](Float s) -> Float {
             //the first 2._f is empirical: when scalar is large, Eps is not enough
-            return 2._f*sqrt(-2._f*s*std::log(Eps)); };
+            return 2._f*s*sqrt(-2._f*std::log(Eps)); };
         Float ac = std::max(std::max(compAC(sigma.x), compAC(sigma.y)), compAC(sigma.z));
         Bound b;
         b.max = pos_ + ac;
-- 
2.43.0


From 66986373e2ad83ff224337f3f5a98692461d7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:40 +0000
Subject: [PATCH 14/62] fix: texture::bitmap read past the texel for grayscale
 images

---
 src/texture/texture_bitmap.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..6589908 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -71,12 +71,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -85,16 +85,23 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return data_[c_*i+3];
+        return data_[c_*i+c_-1];
     }
 
     virtual bool has_alpha() const override {
-        return c_ == 4;
+        return c_ == 2 || c_ == 4;
     }
 
     virtual TextureBuffer buffer() override {
         return { w_, h_, c_, data_.data() };
     }
+
+private:
+    // Color of the i-th pixel. Grayscale images have only one color component.
+    Vec3 color_at(int i) const {
+        const auto* p = &data_[c_*i];
+        return c_ < 3 ? Vec3(p[0]) : Vec3(p[0], p[1], p[2]);
+    }
 };
 
 LM_COMP_REG_IMPL(Texture_Bitmap, "texture::bitmap");
-- 
2.43.0


From bcb297ba95d3edb1e3acb224312af7a9cd9964e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 15/62] fix: raster positions far outside of the film were not
 clamped to the nearest pixel

---
 include/lm/film.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/film.h b/include/lm/film.h
index 68c2663..3a7f6b2 100644
--- a/include/lm/film.h
+++ b/include/lm/film.h
@@ -165,8 +165,8 @@ public:
     */
     glm::ivec2 raster_to_pixel(Vec2 rp) const {
         const auto [w, h] = size();
-        const int x = glm::clamp((int)(rp.x * Float(w)), 0, w-1);
-        const int y = glm::clamp((int)(rp.y * Float(h)), 0, h-1);
+        const int x = (int)glm::clamp(rp.x * Float(w), 0_f, Float(w-1));
+        const int y = (int)glm::clamp(rp.y * Float(h), 0_f, Float(h-1));
         return {x, y};
     }
 
-- 
2.43.0


From 56325ce2105d15cf17eff8e869c4fa63cecd8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:02 +0000
Subject: [PATCH 16/62] fix: very bright pixels were saved as black in 8-bit
 images

---
 src/film/film_bitmap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..28b18d7 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -264,8 +264,8 @@ private:
                         v[3*(yy*w_+x)+i] = T(t);
                     }
                     if constexpr (std::is_same_v<T, unsigned char>) {
-                        const auto t2 = std::pow(t, 1_f/2.2_f);
-                        v[3*(yy*w_+x)+i] = (unsigned char)glm::clamp(int(256_f*t2), 0, 255);
+                        const auto t2 = std::pow(glm::max(t, 0_f), 1_f/2.2_f);
+                        v[3*(yy*w_+x)+i] = (unsigned char)int(glm::clamp(256_f*t2, 0_f, 255_f));
                     }
                 }
             }
-- 
2.43.0


From c723a48469ad8a2de18ffc7ed85229d306ac7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:08 +0000
Subject: [PATCH 17/62] fix: incomplete writes of PNG, HDR and PFM files were
 reported as success

---
 src/film/film_bitmap.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index 28b18d7..e9fe2aa 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -74,9 +74,24 @@ namespace image {
         }
         #endif
         fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
-        return true;
+        const bool written = fwrite(d.data(), 4, d.size(), f) == d.size();
+        return fclose(f) == 0 && written;
+    }
+
+    // Write image with a function of stb_image_write taking a callback function.
+    // Returns false if the output could not be written completely.
+    template <typename WriteFunc>
+    bool writeStb(const std::string& outpath, const WriteFunc& write) {
+        std::ofstream os(outpath, std::ios::out | std::ios::binary);
+        if (!os) {
+            LM_ERROR("Failed to open [file='{}']", outpath);
+            return false;
+        }
+        const int ret = write([](void* context, void* data, int size) {
+            static_cast<std::ofstream*>(context)->write(static_cast<const char*>(data), size);
+        }, &os);
+        os.close();
+        return ret && os;
     }
 
     // Sanity check of an image. If the image contains invalid values like INF or NAN,
@@ -175,7 +190,9 @@ public:
         const auto ext = fs::path(outpath).extension().string();
         if (ext == ".png") {
             const auto data = copy<unsigned char>(true);
-            if (!stbi_write_png(outpath.c_str(), w_, h_, 3, data.data(), w_*3)) {
+            if (!image::writeStb(outpath, [&](stbi_write_func* func, void* os) {
+                return stbi_write_png_to_func(func, os, w_, h_, 3, data.data(), w_*3);
+            })) {
                 return false;
             }
         }
@@ -190,7 +207,9 @@ public:
         else if (ext == ".hdr") {
             auto data = copy<float>(true);
             image::sanityCheck(w_, h_, data);
-            if (!stbi_write_hdr(outpath.c_str(), w_, h_, 3, data.data())) {
+            if (!image::writeStb(outpath, [&](stbi_write_func* func, void* os) {
+                return stbi_write_hdr_to_func(func, os, w_, h_, 3, data.data());
+            })) {
                 return false;
             }
         }
-- 
2.43.0


From a8f3f87d31f25835f524e499766dba030cea6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:29 +0000
Subject: [PATCH 18/62] fix: parallel loops started outside of the initializing
 thread ignored num_threads

---
 src/parallel/parallel_openmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..aa26e39 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,7 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        #pragma omp parallel for schedule(dynamic, 1) num_threads(num_threads_)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
-- 
2.43.0


From 7a1994b2ba5baf0393b04ca8000339d6ff1e39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:04 +0000
Subject: [PATCH 19/62] fix: progress of a parallel loop included iterations of
 preceding loops

---
 src/parallel/parallel_openmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index aa26e39..f334a26 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,8 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1) num_threads(num_threads_)
+        long long count = 0;    // Per-thread number of samples not yet added to processed
+        #pragma omp parallel for schedule(dynamic, 1) num_threads(num_threads_) firstprivate(count)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
@@ -74,7 +75,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
-- 
2.43.0


From fc0aafa2235af5ece009c35244a704f6243ff744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:25 +0000
Subject: [PATCH 20/62] fix: parse_positional_args read out of bounds when
 arguments are missing

---
 include/lm/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/json.h b/include/lm/json.h
index 4e84ed0..10358eb 100644
--- a/include/lm/json.h
+++ b/include/lm/json.h
@@ -121,7 +121,7 @@ LM_NAMESPACE_BEGIN(detail)
 // https://stackoverflow.com/questions/48875467/how-to-pass-not-variadic-values-to-fmtformat
 template <std::size_t ... Is>
 std::string format_with_string_vector(const std::string& format, const std::vector<std::string>& v, std::index_sequence<Is...>) {
-    return fmt::format(format, v[Is]...);
+    return fmt::format(format, v.at(Is)...);
 }
 
 template <std::size_t N>
-- 
2.43.0


From 5be1f8e756f088f6d991860dac74942687b255c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:35 +0000
Subject: [PATCH 21/62] fix: polygons with more than four vertices lost their
 remaining triangles

---
 src/objloader/objloader_simple.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..44ab135 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -91,17 +91,14 @@ public:
                 auto& primitive = primitives.back();
 
                 // Parse face indices
-                OBJMeshFaceIndex is[4];
-                for (auto& i : is) {
-                    if (eol(t[0])) {
-                        continue;
-                    }
-                    i = parse_indices(geo, t);
+                std::vector<OBJMeshFaceIndex> is;
+                while (skip_spaces(t), !eol(t[0]) && t[0] != '\r' && t[0] != '#') {
+                    is.push_back(parse_indices(geo, t));
                 }
-                primitive.fs.insert(primitive.fs.end(), {is[0], is[1], is[2]});
-                if (is[3].p != -1) {
-                    // Triangulate quad
-                    primitive.fs.insert(primitive.fs.end(), {is[0], is[2], is[3]});
+
+                // Triangulate the polygon
+                for (int i = 2; i < int(is.size()); i++) {
+                    primitive.fs.insert(primitive.fs.end(), {is[0], is[i-1], is[i]});
                 }
             }
             
-- 
2.43.0


From d90892cdfb39ab35860c479f8efd16ed2d2fb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:56 +0000
Subject: [PATCH 22/62] fix: long lines ended the parsing of OBJ/MTL files and
 long names overflowed a buffer

---
 src/objloader/objloader_simple.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 44ab135..75fc31c 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,7 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        std::string l, name;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -48,8 +48,8 @@ public:
         int curr_material_index = 0;
 
         // Parse .obj file line by line
-        while (f.getline(l, 4096)) {
-            char *t = l;
+        while (std::getline(f, l)) {
+            char *t = l.data();
             skip_spaces(t);
 
             // ----- Parse vertex position
@@ -217,14 +217,10 @@ private:
     }
 
     // Parses a string
-    template <int N>
-    void next_string(char *&t, char (&name)[N]) {
-        #if LM_COMPILER_MSVC
-        sscanf_s(t, "%s", name, N);
-        #else
-        sscanf(t, "%s", name);
-        #endif
-    };
+    void next_string(char *&t, std::string& name) {
+        t += strspn(t, " \t\r");
+        name.assign(t, strcspn(t, " \t\r"));
+    }
 
     // Parses .mtl file
     bool loadmtl(std::string p) {
@@ -234,9 +230,9 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
-        while (f.getline(l, 4096)) {
-            auto *t = l;
+        std::string l, name;
+        while (std::getline(f, l)) {
+            auto *t = l.data();
             skip_spaces(t);
             if (command(t, "newmtl", 6)) {
                 next_string(t += 7, name);
-- 
2.43.0


From 2681ee9e65c5f4c280c5587986c6ed17567c6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:53 +0000
Subject: [PATCH 23/62] fix: objloader::tinyobjloader dropped the first face
 after each change of material

---
 .../objloader_tinyobjloader.cpp                  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 9483371..cd9c88e 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -126,14 +126,14 @@ public:
                     fs.clear();
                     prev_material_id = curr_material_id;
                 }
-                else {
-                    const auto& i1 = shape.mesh.indices[fi*3];
-                    const auto& i2 = shape.mesh.indices[fi*3+1];
-                    const auto& i3 = shape.mesh.indices[fi*3+2];
-                    fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
-                    fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
-                    fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-                }
+
+                // Add the face
+                const auto& i1 = shape.mesh.indices[fi*3];
+                const auto& i2 = shape.mesh.indices[fi*3+1];
+                const auto& i3 = shape.mesh.indices[fi*3+2];
+                fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
+                fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
+                fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
             }
             if (!fs.empty()) {
                 if (!process_mesh(fs, our_mat_params[prev_material_id < 0 ? 0 : prev_material_id])) {
-- 
2.43.0


From 1dd331ddb0babe9e8c36f8be6a83169123d3952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:53 +0000
Subject: [PATCH 24/62] fix: parameters of the default material of
 objloader::tinyobjloader were uninitialized

---
 plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index cd9c88e..375b708 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -91,7 +91,7 @@ public:
 
         // Default material if OBJ has no corresponding MTL file
         if (materials.empty()) {
-            MTLMatParams p;
+            MTLMatParams p{};
             p.name = "default";
             p.illum = -1;
             p.Kd = Vec3(1);
-- 
2.43.0


From d0158ad3fb8b977b4b0a85c53cfbbbc6180b8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:28 +0000
Subject: [PATCH 25/62] fix: names of the underlying assets of OBJ models could
 collide or could not be resolved

---
 src/model/model_wavefrontobj.cpp | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 74b9bcb..e9365a9 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -73,11 +73,24 @@ public:
 
 	virtual void construct(const Json& prop) override {
         const std::string path = json::value<std::string>(prop, "path");
+
+        // Make a name of an underlying asset.
+        // The name is a part of the locator, so it must be unique and must not contain the delimiter.
+        const auto make_asset_name = [&](std::string name) {
+            std::replace(name.begin(), name.end(), '.', '_');
+            while (assets_map_.find(name) != assets_map_.end()) {
+                name += "_";
+            }
+            return name;
+        };
+        std::unordered_map<std::string, int> material_indices;          // Material name to asset index
+        std::unordered_map<std::string, std::string> texture_names;     // Texture path to asset name
+
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
                 // Create mesh
-                const std::string mesh_name = fmt::format("mesh_{}", assets_.size());
+                const std::string mesh_name = make_asset_name(fmt::format("mesh_{}", assets_.size()));
                 auto mesh = comp::create<Mesh>(
                     "mesh::wavefrontobj_ref", make_loc(mesh_name),
                     json::merge(prop, {
@@ -95,7 +108,7 @@ public:
                 int light_index = -1;
                 if (glm::compMax(m.Ke) > 0_f) {
                     const auto light_impl_name = json::value<std::string>(prop, "light", "light::area");
-                    const auto light_name = mesh_name + "_light";
+                    const auto light_name = make_asset_name(mesh_name + "_light");
                     auto light = comp::create<Light>(light_impl_name, make_loc(light_name), {
                         {"Ke", m.Ke},
                         {"mesh", make_loc(mesh_name)}
@@ -109,7 +122,7 @@ public:
                 }
 
                 // Create mesh group
-                groups_.push_back({ assets_map_[mesh_name], assets_map_[m.name], light_index });
+                groups_.push_back({ assets_map_[mesh_name], material_indices.at(m.name), light_index });
 
                 return true;
             },
@@ -118,13 +131,14 @@ public:
             [&](const MTLMatParams& m) -> bool {
                 // Load user-specified material if given
                 if (const auto it = prop.find("base_material"); it != prop.end()) {
-                    auto mat = comp::create<Material>("material::proxy", make_loc(m.name), {
+                    const auto mat_name = make_asset_name(m.name);
+                    auto mat = comp::create<Material>("material::proxy", make_loc(mat_name), {
                         {"ref", *it}
                     });
                     if (!mat) {
                         return false;
                     }
-                    assets_map_[m.name] = int(assets_.size());
+                    assets_map_[mat_name] = material_indices[m.name] = int(assets_.size());
                     assets_.push_back(std::move(mat));
                     return true;
                 }
@@ -133,10 +147,12 @@ public:
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
                     // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
+                    auto& id = texture_names[m.mapKd];
 
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    if (id.empty()) {
+                        id = make_asset_name("texture_" + fs::path(m.mapKd).stem().string());
+
                         // If not loaded, load the texture
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
@@ -154,23 +170,24 @@ public:
                 }
 
                 // Load material
+                const auto mat_name = make_asset_name(m.name);
                 Ptr<Material> mat;
                 const bool skip_specular_mat = json::value<bool>(prop, "skip_specular_mat", false);
                 if (m.illum == 5 || m.illum == 7) {
                     if (skip_specular_mat) {
                         // Skip specular material. Use black material.
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), { {"Kd", Vec3(0_f)} });
+                            "material::diffuse", make_loc(mat_name), { {"Kd", Vec3(0_f)} });
                     }
                     else if (m.illum == 7) {
                         // Glass
                         mat = comp::create<Material>(
-                            "material::glass", make_loc(m.name), { {"Ni", m.Ni} });
+                            "material::glass", make_loc(mat_name), { {"Ni", m.Ni} });
                     }
                     else if (m.illum == 5) {
                         // Mirror
                         mat = comp::create<Material>(
-                            "material::mirror", make_loc(m.name), {});
+                            "material::mirror", make_loc(mat_name), {});
                     }
                 }
                 else {
@@ -179,7 +196,7 @@ public:
                     if (math::is_zero(m.Ks)) {
                         // Diffuse material
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), {
+                            "material::diffuse", make_loc(mat_name), {
                                 {"Kd", m.Kd},
                                 {"mapKd", mapKd_loc}
                             });
@@ -189,7 +206,7 @@ public:
                         const auto r = 2_f / (2_f + m.Ns);
                         const auto as = math::safe_sqrt(1_f - m.an * .9_f);
                         mat = comp::create<Material>(
-                            "material::glossy", make_loc(m.name), {
+                            "material::glossy", make_loc(mat_name), {
                                 {"Ks", m.Ks},
                                 {"ax", std::max(1e-3_f, r / as)},
                                 {"ay", std::max(1e-3_f, r * as)}
@@ -204,7 +221,7 @@ public:
                     // Default mixture material of D and G
                     mat = comp::create<Material>(
                         "material::mixture_wavefrontobj",
-                        make_loc(m.name),
+                        make_loc(mat_name),
                         {
                             {"Kd", m.Kd},
                             {"mapKd", mapKd_loc},
@@ -218,7 +235,7 @@ public:
                 if (!mat) {
                     return false;
                 }
-                assets_map_[m.name] = int(assets_.size());
+                assets_map_[mat_name] = material_indices[m.name] = int(assets_.size());
                 assets_.push_back(std::move(mat));
 
                 return true;
-- 
2.43.0


From ef7d9f76717a9ef8361c3de4d8e9315fadcf14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:38 +0000
Subject: [PATCH 26/62] fix: mesh::raw accepted missing data and out-of-range
 indices

---
 src/mesh/mesh_raw.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/mesh/mesh_raw.cpp b/src/mesh/mesh_raw.cpp
index 190c4a0..e1996f3 100644
--- a/src/mesh/mesh_raw.cpp
+++ b/src/mesh/mesh_raw.cpp
@@ -48,22 +48,35 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
-        const auto& ps = prop["ps"];
-        for (int i = 0; i < ps.size(); i+=3) {
+        const auto ps = json::value<std::vector<Float>>(prop, "ps");
+        const auto ns = json::value<std::vector<Float>>(prop, "ns");
+        const auto ts = json::value<std::vector<Float>>(prop, "ts");
+        if (ps.size() % 3 != 0 || ns.size() % 3 != 0 || ts.size() % 2 != 0) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Incomplete vertex data");
+        }
+        for (size_t i = 0; i < ps.size(); i+=3) {
             ps_.push_back(Vec3(ps[i],ps[i+1],ps[i+2]));
         }
-        const auto& ns = prop["ns"];
-        for (int i = 0; i < ns.size(); i+=3) {
+        for (size_t i = 0; i < ns.size(); i+=3) {
             ns_.push_back(Vec3(ns[i],ns[i+1],ns[i+2]));
         }
-        const auto& ts = prop["ts"];
-        for (int i = 0; i < ts.size(); i+=2) {
+        for (size_t i = 0; i < ts.size(); i+=2) {
             ts_.push_back(Vec2(ts[i],ts[i+1]));
         }
-        const auto& fs = prop["fs"];
-        const int fs_size = int(fs["p"].size());
-        for (int i = 0; i < fs_size; i++) {
-            fs_.push_back(MeshFaceIndex{ fs["p"][i],fs["t"][i],fs["n"][i] });
+        const auto fs = json::value<Json>(prop, "fs");
+        const auto fs_p = json::value<std::vector<int>>(fs, "p");
+        const auto fs_t = json::value<std::vector<int>>(fs, "t");
+        const auto fs_n = json::value<std::vector<int>>(fs, "n");
+        if (fs_p.size() % 3 != 0 || fs_t.size() != fs_p.size() || fs_n.size() != fs_p.size()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Incomplete face indices");
+        }
+        for (size_t i = 0; i < fs_p.size(); i++) {
+            if (fs_p[i] < 0 || fs_p[i] >= int(ps_.size()) ||
+                fs_t[i] < 0 || fs_t[i] >= int(ts_.size()) ||
+                fs_n[i] < 0 || fs_n[i] >= int(ns_.size())) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Face index is out of range [index={}]", i);
+            }
+            fs_.push_back(MeshFaceIndex{ fs_p[i], fs_t[i], fs_n[i] });
         }
     }
 
-- 
2.43.0


From 5de6394e0cdaab231ce765f7cb92a6c5a92ffcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 27/62] fix: OBJ faces with out-of-range indices were accepted

---
 src/objloader/objloader.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader.cpp b/src/objloader/objloader.cpp
index 09b525b..26559f5 100644
--- a/src/objloader/objloader.cpp
+++ b/src/objloader/objloader.cpp
@@ -4,6 +4,7 @@
 */
 
 #include <pch.h>
+#include <lm/core.h>
 #include <lm/objloader.h>
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE::objloader)
@@ -23,7 +24,19 @@ LM_PUBLIC_API bool load(
     OBJSurfaceGeometry& geo,
     const ProcessMeshFunc& process_mesh,
     const ProcessMaterialFunc& process_material) {
-    return Instance::get().load(path, geo, process_mesh, process_material);
+    // Reject faces referring to missing vertex data
+    const auto process_valid_mesh = [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
+        for (const auto& i : fs) {
+            if (i.p < 0 || i.p >= int(geo.ps.size()) ||
+                i.t < -1 || i.t >= int(geo.ts.size()) ||
+                i.n < -1 || i.n >= int(geo.ns.size())) {
+                LM_ERROR("Face index is out of range [path='{}']", path);
+                return false;
+            }
+        }
+        return process_mesh(fs, m);
+    };
+    return Instance::get().load(path, geo, process_valid_mesh, process_material);
 }
 
 LM_NAMESPACE_END(LM_NAMESPACE::objloader)
-- 
2.43.0


From f0df1baf6311c7bb3e2c41d47c1686aa587f5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 28/62] fix: OBJ faces with attributes at some vertices only
 were read out of bounds

---
 src/mesh/mesh_wavefrontobj.cpp   | 4 ++--
 src/model/model_wavefrontobj.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_wavefrontobj.cpp b/src/mesh/mesh_wavefrontobj.cpp
index ebff0dc..380aa4d 100644
--- a/src/mesh/mesh_wavefrontobj.cpp
+++ b/src/mesh/mesh_wavefrontobj.cpp
@@ -77,13 +77,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index e9365a9..6f3ab1c 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -324,13 +324,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
-- 
2.43.0


From 1596995afdcb5c076cdebcdba8abf9dd717bcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 29/62] fix: area lights of meshes without triangles were
 sampled out of bounds

---
 src/light/light_area.cpp           | 3 +++
 src/objloader/objloader_simple.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index fe7669d..63a0db0 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -68,6 +68,9 @@ public:
             const auto cr = cross(tri.p2.p - tri.p1.p, tri.p3.p - tri.p1.p);
             dist_.add(math::safe_sqrt(glm::dot(cr, cr)) * .5_f);
         });
+        if (dist_.empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mesh of the area light has no triangles");
+        }
         invA_ = 1_f / dist_.c.back();
         dist_.norm();
     }
diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 75fc31c..f5ece03 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -151,6 +151,9 @@ public:
 
         // Process parsed primitives
         for (const auto& primitive : primitives) {
+            if (primitive.fs.empty()) {
+                continue;
+            }
             if (!process_mesh(primitive.fs, ms_.at(primitive.material_index))) {
                 return false;
             }
-- 
2.43.0


From 9e74d46de53f886d45c8391bfeaa15ca98b16aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:03 +0000
Subject: [PATCH 30/62] fix: media and volume::multi did not report their
 references, albedo of medium::homogeneous was not saved

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  8 ++++++--
 src/volume/volume_multi.cpp         |  9 +++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..10757d1 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;      	// Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,12 +29,16 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
     }
 
 public:
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..aa8a0d6 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto*& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto*& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From 9746af070a5d0edebed146a89785355a338b2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:03 +0000
Subject: [PATCH 31/62] fix: members of texture::constant, volume::constant and
 light::env were not saved

---
 src/light/light_env.cpp          | 2 +-
 src/texture/texture_constant.cpp | 2 +-
 src/volume/volume_constant.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index 3039b3f..3da1d2c 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From db0c27d9e859ac71e05bde2bab1a139306195b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:03 +0000
Subject: [PATCH 32/62] fix: the medium of a scene was not saved and not
 updated on replacement

---
 src/scene.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index a125a9d..403a2da 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
-- 
2.43.0


From 5d129de478f4686f52e88c7a80a65167e3cf0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:03 +0000
Subject: [PATCH 33/62] fix: renderers lost members and references on save,
 load and asset replacement

---
 src/renderer/renderer_bdpt.cpp    | 18 ++++++++++++++++++
 src/renderer/renderer_bdptopt.cpp | 28 ++++++++++++++++++++++------
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_raycast.cpp |  2 +-
 src/renderer/renderer_volpt.cpp   |  9 ++++++++-
 6 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..872a0cd 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..8b1dfdd 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,28 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
+        return strategy_film_name_map_.at(name);
+        #else
+        return nullptr;
+        #endif
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,12 +483,6 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
-    virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
-    }
-    #endif
-
     virtual Json render() const override {
         scene_->require_renderable();
         film_->clear();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From b9ea75c1da47baf617e2f84eaf7ed9504373776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:20 +0000
Subject: [PATCH 34/62] fix: saving accepted references to a sibling whose name
 extends the saved asset's name

---
 include/lm/serial.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..7617ce1 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -21,6 +21,22 @@
 
 //! \cond
 
+LM_NAMESPACE_BEGIN(LM_NAMESPACE)
+LM_NAMESPACE_BEGIN(serial)
+LM_NAMESPACE_BEGIN(detail)
+
+/*
+    Check if the locator denotes the component at root_loc or one below it.
+*/
+inline bool in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.rfind(root_loc, 0) == 0
+        && (loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
+LM_NAMESPACE_END(detail)
+LM_NAMESPACE_END(serial)
+LM_NAMESPACE_END(LM_NAMESPACE)
+
 LM_NAMESPACE_BEGIN(cereal)
 
 /*
@@ -136,7 +152,7 @@ void save_owned(Archive& ar, T* p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -252,7 +268,7 @@ serialize(lm::OutputArchive& ar, T*& p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -371,7 +387,7 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
             // Check if the weak reference is referring to an asset in the subtree
             // by checking if the locator starts with root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From d79be0687170acf9e0959a3771832f0d33c287a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 35/62] fix: normal visualization showed uninitialized values
 at environment light hits

---
 src/renderer/renderer_raycast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index 5667438..cafe4cc 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -77,7 +77,8 @@ public:
                 return;
             }
             if (visualize_normal_) {
-                film_->set_pixel(x, y, glm::abs(sp->geom.n));
+                // There is no normal where the ray hits the environment light
+                film_->set_pixel(x, y, sp->geom.infinite ? bg_color_ : glm::abs(sp->geom.n));
             }
             else {
                 if (sp->geom.infinite) {
-- 
2.43.0


From d2df91e66e70e347dd116c7899bc3213c5a635a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:16 +0000
Subject: [PATCH 36/62] fix: looking up a missing part of a model threw
 out_of_range instead of failing

---
 src/model/model_wavefrontobj.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 6f3ab1c..8b469b6 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,12 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        if (it == assets_map_.end()) {
+            LM_ERROR("Invalid asset name [name='{}']", name);
+            return nullptr;
+        }
+        return assets_[it->second].get();
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From 6fabe401159340bd72ffd14bee444a9d3f113daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:16 +0000
Subject: [PATCH 37/62] fix: alpha masks were stale after the texture was
 replaced

---
 src/model/model_wavefrontobj.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 8b469b6..7074628 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -386,7 +386,7 @@ public:
 private:
     // Evaluate alpha value
     Float eval_alpha(const PointGeometry& geom) const {
-        return !mask_tex_ ? 1_f : mask_tex_->eval_alpha(geom.t);
+        return !mask_tex_ || !mask_tex_->has_alpha() ? 1_f : mask_tex_->eval_alpha(geom.t);
     }
 
     // Get material by index
@@ -425,10 +425,8 @@ public:
         // Alpha mask
         const bool no_alpha_mask = json::value<bool>(prop, "no_alpha_mask");
         if (!no_alpha_mask && !mapKd.empty()) {
-            auto* texture = comp::get<Texture>(mapKd);
-            if (texture && texture->has_alpha()) {
-                mask_tex_ = texture;
-            }
+            // The texture can be replaced later, so whether it has alpha is checked when it is used
+            mask_tex_ = comp::get<Texture>(mapKd);
         }
     }
 
-- 
2.43.0


From 010a175ee44ed6055e13c9e1a6d1fbb3a4282eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:16 +0000
Subject: [PATCH 38/62] fix: area lights kept the distribution of a replaced
 mesh

---
 src/light/light_area.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index 63a0db0..beb3e19 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -33,10 +33,30 @@ public:
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        const auto* prev = mesh_;
         comp::visit(visit, mesh_);
+        if (mesh_ && mesh_ != prev) {
+            // The mesh has been replaced
+            init_dist();
+        }
     }
 
 private:
+    // Construct CDF for surface sampling
+    // Note we construct the CDF before transformation
+    void init_dist() {
+        dist_.clear();
+        mesh_->foreach_triangle([&](int, const Mesh::Tri& tri) {
+            const auto cr = cross(tri.p2.p - tri.p1.p, tri.p3.p - tri.p1.p);
+            dist_.add(math::safe_sqrt(glm::dot(cr, cr)) * .5_f);
+        });
+        if (dist_.empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mesh of the area light has no triangles");
+        }
+        invA_ = 1_f / dist_.c.back();
+        dist_.norm();
+    }
+
     Float tranformed_invA(const PointGeometry& geom, const Transform& transform) const {
         // The change of area depends on the orientation of the surface.
         // A surface element with (transformed) unit normal n is scaled by J / |M_lin^T n|.
@@ -61,18 +81,7 @@ public:
     virtual void construct(const Json& prop) override {
         Ke_ = json::value<Vec3>(prop, "Ke");
         mesh_ = json::comp_ref<Mesh>(prop, "mesh");
-        
-        // Construct CDF for surface sampling
-        // Note we construct the CDF before transformation
-        mesh_->foreach_triangle([&](int, const Mesh::Tri& tri) {
-            const auto cr = cross(tri.p2.p - tri.p1.p, tri.p3.p - tri.p1.p);
-            dist_.add(math::safe_sqrt(glm::dot(cr, cr)) * .5_f);
-        });
-        if (dist_.empty()) {
-            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mesh of the area light has no triangles");
-        }
-        invA_ = 1_f / dist_.c.back();
-        dist_.norm();
+        init_dist();
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 7d0c7d3b74e2a389cf9456703defe2d23ce5159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:16 +0000
Subject: [PATCH 39/62] fix: volume::multi kept the bound and maximum of
 replaced volumes

---
 src/volume/volume_multi.cpp | 42 ++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index aa8a0d6..586ebd1 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -21,15 +21,13 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Volume_Multi : public Volume {
 private:
-    Bound bound_;           // Boundary including all volumes
     std::vector<Volume*> volumes_den_;
     std::vector<Volume*> volumes_alb_;
     unsigned int size_;     // Size of volume arrays
-    Float max_scalar_ = 0;  // Sum of maxScalar() of all Volumes in volumes_den_
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
+        ar(size_, volumes_den_, volumes_alb_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -63,31 +61,19 @@ public:
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_den[{}] has no density", i);
         }
 
-        // Computes the bounding box of all volumes
-        Vec3 min = Vec3(Inf);
-        Vec3 max = Vec3(-Inf);
-        for(auto* v : volumes_den_) {
-            const Bound b = v->bound();
-
-            min.x = std::min(min.x,b.min.x);
-            min.y = std::min(min.y,b.min.y);
-            min.z = std::min(min.z,b.min.z);
-
-            max.x = std::max(max.x,b.max.x);
-            max.y = std::max(max.y,b.max.y);
-            max.z = std::max(max.z,b.max.z);
-
-            max_scalar_ += v->max_scalar();
-        }
-        bound_.min = min;
-        bound_.max = max;
-
-        LM_DEBUG("min bound: {}, {}, {}", bound_.min.x, bound_.min.y, bound_.min.z);
-        LM_DEBUG("max bound: {}, {}, {}", bound_.max.x, bound_.max.y, bound_.max.z);
+        const auto b = bound();
+        LM_DEBUG("min bound: {}, {}, {}", b.min.x, b.min.y, b.min.z);
+        LM_DEBUG("max bound: {}, {}, {}", b.max.x, b.max.y, b.max.z);
     }
 
+    // Computes the bounding box of all volumes. The volumes can be replaced,
+    // so the bound and the maximum are not cached.
     virtual Bound bound() const override {
-        return bound_;
+        Bound bound;
+        for (auto* v : volumes_den_) {
+            bound = merge(bound, v->bound());
+        }
+        return bound;
     }
 
     // This Volume requires to have color and scalar
@@ -96,7 +82,11 @@ public:
     }
 
     virtual Float max_scalar() const override {
-        return max_scalar_;
+        Float sum = 0_f;
+        for (auto* v : volumes_den_) {
+            sum += v->max_scalar();
+        }
+        return sum;
     }
 
     bool is_in_bound(const Vec3& p, const Bound& b) const {
-- 
2.43.0


From de994a541a5e59a52a118160ee71fff0abff0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 40/62] fix: mixture materials kept the grouping of replaced
 materials

---
 src/material/material_mixture.cpp | 44 ++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/material/material_mixture.cpp b/src/material/material_mixture.cpp
index d933b7e..7cbc4ad 100644
--- a/src/material/material_mixture.cpp
+++ b/src/material/material_mixture.cpp
@@ -122,10 +122,11 @@ private:
         struct Entry {
             Material* material;
             Float weight;
+            int index;      // Index in the given list of entries
 
             template <typename Archive>
             void serialize(Archive& ar) {
-                ar(material, weight);
+                ar(material, weight, index);
             }
         };
         std::vector<Entry> entries;
@@ -145,30 +146,42 @@ public:
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        bool replaced = false;
         for (auto& material_group : material_groups_) {
             for (auto& e : material_group.entries) {
+                const auto* prev = e.material;
                 comp::visit(visit, e.material);
+                replaced |= e.material && e.material != prev;
             }
         }
+        if (replaced) {
+            // The new material might belong to a different group
+            std::vector<MaterialGroup::Entry> entries;
+            for (const auto& material_group : material_groups_) {
+                entries.insert(entries.end(), material_group.entries.begin(), material_group.entries.end());
+            }
+            std::sort(entries.begin(), entries.end(), [](const auto& a, const auto& b) { return a.index < b.index; });
+            init_groups(entries);
+        }
     }
 
-public:
-    virtual void construct(const Json& prop) override {
+private:
+    void init_groups(const std::vector<MaterialGroup::Entry>& entries) {
+        material_groups_.clear();
+        dist_.clear();
+
         // Create default material group for non-specular materials
         material_groups_.emplace_back();
 
-        // Load entries
-        for (auto& entry : prop) {
-            auto* mat = json::comp_ref<Material>(entry, "material");
-            const auto weight = json::value<Float>(entry, "weight");
-            if (mat->is_specular_component({})) {
+        for (const auto& entry : entries) {
+            if (entry.material->is_specular_component({})) {
                 // If the specular material is given, create a new material group.
                 material_groups_.emplace_back();
-                material_groups_.back().entries.push_back({ mat, weight });
+                material_groups_.back().entries.push_back(entry);
             }
             else {
                 // Otherwise, add the entry to the default group.
-                material_groups_[0].entries.push_back({ mat, weight });
+                material_groups_[0].entries.push_back(entry);
             }
         }
 
@@ -185,6 +198,17 @@ public:
         dist_.norm();
     }
 
+public:
+    virtual void construct(const Json& prop) override {
+        std::vector<MaterialGroup::Entry> entries;
+        for (auto& entry : prop) {
+            auto* mat = json::comp_ref<Material>(entry, "material");
+            const auto weight = json::value<Float>(entry, "weight");
+            entries.push_back({ mat, weight, (int)(entries.size()) });
+        }
+        init_groups(entries);
+    }
+
     virtual ComponentSample sample_component(const ComponentSampleU& u, const PointGeometry&, Vec3) const override {
         const int comp = dist_.sample(u.uc[0]);
         const auto p = dist_.pmf(comp);
-- 
2.43.0


From 0413bcc2b5fea4f9613071b98d657dea9c5a07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:08 +0000
Subject: [PATCH 41/62] fix: sampling an empty group of a mixture material read
 out of bounds

---
 src/material/material_mixture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/material/material_mixture.cpp b/src/material/material_mixture.cpp
index 7cbc4ad..83b5481 100644
--- a/src/material/material_mixture.cpp
+++ b/src/material/material_mixture.cpp
@@ -221,6 +221,9 @@ public:
 
     virtual std::optional<DirectionSample> sample_direction(const DirectionSampleU& us, const PointGeometry& geom, Vec3 wi, int comp, TransDir trans_dir) const override {
         const auto& group = material_groups_[comp];
+        if (group.entries.empty()) {
+            return {};
+        }
         
         // Sample component in the selected group
         const int comp_in_group = group.dist.sample(us.udc[0]);
-- 
2.43.0


From 52b8928b16c4d0e2e52d7bda40e3d99221eac871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:55 +0000
Subject: [PATCH 42/62] fix: assets that failed to be created stayed registered
 and destroyed the replaced ones

---
 src/assetgroup.cpp | 56 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..aebd632 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,19 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Remove the registration of the asset which could not be created
+    void unregister(const std::string& name) {
+        const auto it = asset_index_map_.find(name);
+        const int index = it->second;
+        asset_index_map_.erase(it);
+        assets_.erase(assets_.begin() + index);
+        for (auto& [_, i] : asset_index_map_) {
+            if (i > index) {
+                i--;
+            }
+        }
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -74,15 +87,22 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            // This might cause an exception. In that case keep the existing instance.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                assets_[index] = std::move(old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -109,7 +129,14 @@ public:
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception. In that case the asset must not be left registered.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister(name);
+                throw;
+            }
         }
 
         return asset;
@@ -131,8 +158,21 @@ public:
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        // If failed, the asset must not be left registered
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            if (!is) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to open file [path='{}']", path);
+            }
+            serial::load_comp(is, assets_.back(), make_loc(name));
+            if (!assets_.back()) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to load serialized asset [path='{}']", path);
+            }
+        }
+        catch (...) {
+            unregister(name);
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From 99206f45c0d220192fb7197c8a00546df6c65c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 43/62] fix: unreadable OBJ and MTL files were accepted as
 empty ones

---
 src/objloader/objloader_simple.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index f5ece03..dcf371e 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -136,6 +136,10 @@ public:
                 continue;
             }
         }
+        if (f.bad()) {
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
+            return false;
+        }
 
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
@@ -257,6 +261,10 @@ private:
             else if (command(t, "illum", 5))  { m.illum = next_int(t += 6); }
             else if (command(t, "map_Kd", 6)) { next_string(t += 7, name); m.mapKd = name; }
         }
+        if (f.bad()) {
+            LM_ERROR("Failed to read MTL file [path='{}']", p);
+            return false;
+        }
         return true;
     }
 };
-- 
2.43.0


From b64ba8d18a40a55d600a661f6b11a1bdde89eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 44/62] fix: renderers with an unknown scheduler or sampling
 mode were created and crashed on rendering

---
 src/renderer/renderer_bdpt.cpp    | 3 +++
 src/renderer/renderer_bdptopt.cpp | 3 +++
 src/renderer/renderer_lt.cpp      | 3 +++
 src/renderer/renderer_pt.cpp      | 7 +++++++
 src/renderer/renderer_volpt.cpp   | 3 +++
 5 files changed, 19 insertions(+)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 872a0cd..2223c6b 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -72,6 +72,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 8b1dfdd..5975e1c 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -465,6 +465,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
         #if BDPT_PER_STRATEGY_FILM
         const auto size = film_->size();
         for (int k = 2; k <= max_verts_; k++) {
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index ea2e9ed..7b8c661 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -52,6 +52,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 
     virtual Json render() const override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f9dd68a..e8bbd70 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -65,6 +65,7 @@ public:
             if (s == "naive")    sampling_mode_ = SamplingMode::Naive;
             else if (s == "nee") sampling_mode_ = SamplingMode::NEE;
             else if (s == "mis") sampling_mode_ = SamplingMode::MIS;
+            else LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid sampling mode [name='{}']", s);
         }
         {
 
@@ -80,6 +81,12 @@ public:
                 sched_ = comp::create<scheduler::Scheduler>(
                     "scheduler::spi::" + name, make_loc("scheduler"), prop);
             }
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid primary ray sampling mode [name='{}']", s);
+            }
+            if (!sched_) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", name);
+            }
         }
     }
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index e60f1c3..36d73a1 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -58,6 +58,9 @@ public:
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spp::" + sched_name, make_loc("scheduler"), prop);
         #endif
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
-- 
2.43.0


From d310907285ef01f3fcd974f2b40466913fe3ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 45/62] fix: volume::multi crashed on invalid references

---
 src/volume/volume_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 586ebd1..8e975d1 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -54,6 +54,8 @@ public:
         for( unsigned int i = 0; i < size_; i++ ){
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid reference in volumes_alb[{}] or volumes_den[{}]", i, i);
 
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
-- 
2.43.0


From 8c6a61f00a8d98a316003917ce0d78ec7256c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 46/62] fix: failures of saving and loading the state went
 unnoticed or destroyed the current one

---
 src/user.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..32d14b4 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -104,11 +104,30 @@ public:
     void save_state_to_file(const std::string& path) {
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        os.flush();
+        if (!os) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to write state [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
         std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, root_assets_, root_assets_->loc());
+        if (!is) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to open file [path='{}']", path);
+        }
+        // Keep the current state if the loading fails
+        const auto loc = root_assets_->loc();
+        auto old = std::move(root_assets_);
+        try {
+            serial::load_comp(is, root_assets_, loc);
+            if (!root_assets_) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to load state [path='{}']", path);
+            }
+        }
+        catch (...) {
+            root_assets_ = std::move(old);
+            throw;
+        }
     }
 };
 
-- 
2.43.0


From b48427f6e6ce1c1af3d865c6c37cbac94cd6c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:55 +0000
Subject: [PATCH 47/62] fix: creating a component with a wrong interface leaked
 the instance

---
 include/lm/component.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..5e60149 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -569,7 +569,13 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
         return {};
     }
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    auto* p = dynamic_cast<InterfaceT*>(inst);
+    if (!p) {
+        // The instance implements a different interface
+        ComponentDeleter()(inst);
+        return {};
+    }
+    return Component::Ptr<InterfaceT>(p);
 }
 
 /*!
-- 
2.43.0


From fb143ee76aa3869e79a9cd41489d975e1cfe9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:55 +0000
Subject: [PATCH 48/62] fix: loading a plugin directory ignored the directory
 and stopped at the first failure

---
 src/component.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/component.cpp b/src/component.cpp
index 999aa57..0e25c07 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -295,7 +295,13 @@ public:
             if (!std::regex_match(filename.c_str(), match, pluginNameExp)) {
                 continue;
             }
-            load_plugin(it->path().stem().string().c_str());
+            // Failures are reported but ignored
+            try {
+                load_plugin((it->path().parent_path() / it->path().stem()).string());
+            }
+            catch (const Exception& e) {
+                LM_ERROR("Failed to load plugin [name='{}']: {}", filename, e.what());
+            }
         }
     }
 
-- 
2.43.0


From 393c4fa9bd31f638b754a44f2236c59ce02bcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:55 +0000
Subject: [PATCH 49/62] fix: ill-formed locators ending with a separator were
 accepted

---
 src/component.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/component.cpp b/src/component.cpp
index 0e25c07..fe71429 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -336,6 +336,11 @@ public:
             return nullptr;
         }
 
+        if (locator.back() == '.') {
+            LM_ERROR("Locator must not end with '.' [loc='{}']", locator);
+            return nullptr;
+        }
+
         // Given 'xxx.yyy.zzz', returns the pair of 'xxx' and 'yyy.zzz'.
         const auto splitFirst = [&](const std::string& s) -> std::tuple<std::string, std::string> {
             const auto i = s.find_first_of('.', 0);
-- 
2.43.0


From 0a9e3ca1f916563c5eb0a5ff1a9992ef1d89fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:27 +0000
Subject: [PATCH 50/62] fix: position sampling on lights ignored the light
 selection probability

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..bdec906 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From d5c4b9f4c9291d40033841114dbbb9a85ed36b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:27 +0000
Subject: [PATCH 51/62] fix: distance sampling failed in scenes without medium

---
 include/lm/path.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lm/path.h b/include/lm/path.h
index bdec906..a185408 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -612,6 +612,14 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto hit = scene->intersect({ sp.geom.p, wo }, Eps, Inf);
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
+    // Vacuum
+    if (scene->medium_node() == -1) {
+        if (!hit) {
+            return {};
+        }
+        return DistanceSample{ *hit, Vec3(1_f) };
+    }
+
     // Sample a distance
     const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
     const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
-- 
2.43.0


From 70f7c009283f8cfa3c556342c3d15ce3fbccfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:58 +0000
Subject: [PATCH 52/62] fix: subpaths of at most one vertex could have two

---
 include/lm/bidir.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lm/bidir.h b/include/lm/bidir.h
index f3c6141..7428b73 100644
--- a/include/lm/bidir.h
+++ b/include/lm/bidir.h
@@ -521,6 +521,9 @@ static void sample_subpath_from_endpoint(Rng& rng, Path& path, const Scene* scen
                 break;;
             }
             path.vs.push_back({ s->sp, 0 });
+            if (path.num_verts() == max_verts) {
+                break;
+            }
             ray = { s->sp.geom.p, s->wo };
         }
         else {
-- 
2.43.0


From 49b4d87891b5433efaf9bb76306e7c5e8bcc85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:38 +0000
Subject: [PATCH 53/62] fix: optimized BDPT counted direct hits on emitters
 once per material component

---
 src/renderer/renderer_bdptopt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 5975e1c..698cf56 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -269,13 +269,15 @@ std::optional<Splat> connect_and_eval_contrb(const Scene* scene, const Path& sub
         const auto& vL = subpathE.vs[t-1];
         const auto spL = vL.sp.as_type(SceneInteraction::LightEndpoint);
         const auto Le = path::eval_contrb_direction(scene, spL, {}, vL.w_rev, {}, TransDir::LE, true);
-        C = Le * vL.alpha;
+        // The throughput includes the component selection on the surface
+        // that is not a part of the path ending with the light endpoint
+        C = Le * vL.alpha * path::pdf_component(scene, vL.sp, vL.w_rev, vL.comp);
     }
     else if (t == 0) {
         const auto& vE = subpathL.vs[s-1];
         const auto spE = vE.sp.as_type(SceneInteraction::CameraEndpoint);
         const auto We = path::eval_contrb_direction(scene, spE, {}, vE.w_rev, {}, TransDir::EL, true);
-        C = We * vE.alpha;
+        C = We * vE.alpha * path::pdf_component(scene, vE.sp, vE.w_rev, vE.comp);
     }
     else {
         const auto& vL = subpathL.vs[s-1];
-- 
2.43.0


From 9d57e8d7c358b7f257999cb4df6c5d907b05fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 54/62] fix: numpy arrays were converted to vectors and
 matrices ignoring strides and shape

---
 include/lm/pylm.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 4bb2470..e8f8023 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -183,14 +183,14 @@ struct type_caster<glm::vec<N, T, Q>> {
             return false;
         }
 
-        // Ensure that the argument is a numpy array of correct type
-        auto buf = array::ensure(src);
+        // Ensure that the argument is a contiguous numpy array of correct type
+        auto buf = array_t<T, array::c_style | array::forcecast>::ensure(src);
         if (!buf) {
             return false;
         }
 
         // Check dimension
-        if (buf.ndim() != 1) {
+        if (buf.ndim() != 1 || buf.shape(0) != N) {
             return false;
         }
 
@@ -241,14 +241,14 @@ struct type_caster<glm::mat<C, R, T, Q>> {
             return false;
         }
 
-        // Ensure that the argument is a numpy array of correct type
-        auto buf = array::ensure(src);
+        // Ensure that the argument is a contiguous numpy array of correct type
+        auto buf = array_t<T, array::c_style | array::forcecast>::ensure(src);
         if (!buf) {
             return false;
         }
 
         // Check dimension
-        if (buf.ndim() != 2) {
+        if (buf.ndim() != 2 || buf.shape(0) != R || buf.shape(1) != C) {
             return false;
         }
 
-- 
2.43.0


From 7b834bd1f92fbb9ab05a406f55b4a74127de2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 55/62] fix: integers beyond 32 bits were truncated on the way
 to Python

---
 include/lm/pylm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index e8f8023..f8fd199 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -40,7 +40,7 @@ public:
             value = src.cast<double>();
         }
         else if (isinstance<int_>(src)) {
-            value = src.cast<int>();
+            value = src.cast<std::int64_t>();
         }
         else if (isinstance<str>(src)) {
             value = src.cast<std::string>();
@@ -104,9 +104,11 @@ public:
             case value_t::number_float: {
                 return cast_to_python_object<double>(src, policy, std::move(parent));
             }
-            case value_t::number_integer: { [[fallthrough]]; }
+            case value_t::number_integer: {
+                return cast_to_python_object<std::int64_t>(src, policy, std::move(parent));
+            }
             case value_t::number_unsigned: {
-                return cast_to_python_object<int>(src, policy, std::move(parent));
+                return cast_to_python_object<std::uint64_t>(src, policy, std::move(parent));
             }
             case value_t::string: {
                 return cast_to_python_object<std::string>(src, policy, std::move(parent));
-- 
2.43.0


From a1ec1ae08a543bbc11c1a69e16ce5e22fada22ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 56/62] fix: objects of any bound type were accepted as
 references to components

---
 include/lm/pylm.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index f8fd199..876849c 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -71,19 +71,13 @@ public:
             }
         }
         else {
-            // Extract underlying C++ type
-            // Check if the underlying type is registered to pybind,
-            // and the number of base class is one assuming multiple inheritance is not used.
-            auto& bases = all_type_info((PyTypeObject*)src.get_type().ptr());
-            if (bases.size() == 1) {
-                void* ptr = values_and_holders(reinterpret_cast<instance*>(src.ptr())).begin()->value_ptr();
-                auto* comp = static_cast<lm::Component*>(ptr);
-                // Extranct the locator of the instance
-                value = comp->loc();
+            // Extract the locator if the object is an instance of a component
+            if (isinstance<lm::Component>(src)) {
+                value = src.cast<const lm::Component*>()->loc();
                 return true;
             }
 
-            LM_UNREACHABLE();
+            // Otherwise the type is not convertible
             return false;
         }
         return true;
-- 
2.43.0


From 16594f2c5f39215629a2f23ea6c4fcdd5508b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 57/62] fix: max_scalar of volumes written in Python called
 has_scalar

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index bec63f4..a281996 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -973,7 +973,7 @@ static void bind_volume(pybind11::module& m) {
             PYBIND11_OVERLOAD_PURE(bool, Volume, has_scalar);
         }
         virtual Float max_scalar() const override {
-            PYBIND11_OVERLOAD_PURE(Float, Volume, has_scalar);
+            PYBIND11_OVERLOAD_PURE(Float, Volume, max_scalar);
         }
         virtual Float eval_scalar(Vec3 p) const override {
             PYBIND11_OVERLOAD(Float, Volume, eval_scalar, p);
-- 
2.43.0


From 4a89d1c906661e98fe9d1380f791841641f79721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 58/62] fix: media written in Python received a copy of the
 random number generator

---
 src/pylm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index a281996..2d56b47 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -939,10 +939,10 @@ static void bind_medium(pybind11::module& m) {
             PYBIND11_OVERLOAD(void, Medium, construct, prop);
         }
         virtual std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, &rng, ray, tmin, tmax);
         }
         virtual Vec3 eval_transmittance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, &rng, ray, tmin, tmax);
         }
         virtual bool is_emitter() const override {
             PYBIND11_OVERLOAD_PURE(bool, Medium, is_emitter);
-- 
2.43.0


From e579799ae087c91074e8623194188f00b350243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:11 +0000
Subject: [PATCH 59/62] fix: components written in Python and created with
 create() were never destroyed

---
 include/lm/pylm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 876849c..a9cf0d0 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -344,6 +344,10 @@ static pybind11::object cast_to_python_object(Component* inst) {
         // To avoid this, if the instance was created inside python, extract the underlying
         // python object and directly return it.
         auto instPy = std::any_cast<pybind11::object>(ownerRef);
+        // The returned object owns the instance. Remove the reference kept in the instance,
+        // otherwise the object would be kept alive by itself.
+        ownerRef.reset();
+        comp::detail::Access::release_func(inst) = nullptr;
         return instPy;
     }
     // Otherwise inst is C++ instance so return with standard pointer
-- 
2.43.0


From 3a180f8fa680d22231cf2b516cf0e3885aa9ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:11 +0000
Subject: [PATCH 60/62] fix: is_camera read an unset index in scenes without
 camera

---
 src/scene.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index 403a2da..fb35545 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -365,7 +365,7 @@ public:
     }
 
     virtual bool is_camera(const SceneInteraction& sp) const override {
-        return sp.primitive == *camera_;
+        return camera_ && sp.primitive == *camera_;
     }
 
     #pragma endregion
-- 
2.43.0


From bb3bace402f3da912309d28c2e92a8f365f3107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:01 +0000
Subject: [PATCH 61/62] fix: make the triangle determinant tolerance of the SAH
 BVH relative to the triangle size

An absolute tolerance made triangles with edges below about 1e-4 invisible to every ray and reported
spurious hits on zero-area triangles of large scenes.
---
 src/accel/accel_sahbvh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 40f6eb6..75fbcf3 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -64,7 +64,8 @@ struct Tri {
         auto s = std::copysign(1_f, d);
         auto u = glm::dot(tv, p) * s;
         auto v = glm::dot(r.d, q) * s;
-        if (ad < 1e-8_f || u < 0_f || v < 0_f || u + v > ad) {
+        // The determinant scales with the size of the triangle, so does the tolerance
+        if (ad <= 1e-8_f * glm::length(e1) * glm::length(e2) || u < 0_f || v < 0_f || u + v > ad) {
             return {};
         }
         auto t = glm::dot(e2, q) / d;
-- 
2.43.0


From c69c077abbf71d5d6ec3377c4f79436cb04ac472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:56 +0000
Subject: [PATCH 62/62] fix: give ProgressEnd its own value and end its message
 with a newline

---
 include/lm/logger.h | 2 +-
 src/logger.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/logger.h b/include/lm/logger.h
index 85e544c..32ebc0f 100644
--- a/include/lm/logger.h
+++ b/include/lm/logger.h
@@ -84,7 +84,7 @@ enum class LogLevel : int {
         used in the end of the progress message.
         \endrst
     */
-    ProgressEnd = 100,
+    ProgressEnd = 101,
 };
 
 /*!
diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..d8b6b0a 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -116,7 +116,7 @@ public:
             else {
                 std::cout << header;
             }
-            std::cout << body << whitespaces << "\r" << std::flush;
+            std::cout << body << whitespaces << (level == LogLevel::ProgressEnd ? "\n" : "\r") << std::flush;
 
             // ProgressEnd incurs newline so reset the cached values
             if (level == LogLevel::ProgressEnd) {
-- 
2.43.0

