From 07f79a06a233c19e8ed705d619a257d39d5b771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 1/5] fix: as_camera_matrix must not divide by a zero last
 entry

---
 src/camera.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..4990203 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,14 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        // Normalize, unless the last entry is zero. (It is when the principal
+        // plane of the camera contains the world origin.)
+        let scale = m[(2, 3)].clone();
+        if scale == nalgebra::convert(0.0) {
+            m
+        } else {
+            m / scale
+        }
     }
 }
 
-- 
2.43.0


From d9a73eb10a686f076a1eaf566d75af338e4bf7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 2/5] fix: linearize cameras whose principal plane contains the
 world origin

---
 src/linearize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..83094fa 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -21,8 +21,9 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
         // flip sign if focal length < 0
         let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
 
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // No need to normalize: the Jacobian does not depend on the scale of
+        // the matrix (and its last entry is zero if the principal plane of the
+        // camera contains the world origin).
         Self { m }
     }
 
-- 
2.43.0


From 6c95a142e573932b7b5fadf86f735a590139c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 3/5] fix: report zero-length ray directions instead of
 returning NaN

---
 src/ray_intersection.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 327a774..096bb2a 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -66,12 +66,17 @@ where
         let d = &ray_wc.direction;
 
         // Normalize the vector length.
-        let dir = nalgebra::base::Unit::new_normalize(Vector3::new(
+        let (dir, norm) = nalgebra::base::Unit::new_and_get(Vector3::new(
             d.data.0[0][0].clone(),
             d.data.0[1][0].clone(),
             d.data.0[2][0].clone(),
         ));
 
+        // Without a direction, this is not a ray.
+        if norm == na::zero() || !norm.is_finite() {
+            return Err(Error::InvalidInput);
+        }
+
         line_dirs[(i, 0)] = dir[0].clone();
         line_dirs[(i, 1)] = dir[1].clone();
         line_dirs[(i, 2)] = dir[2].clone();
-- 
2.43.0


From 0671c3e636ec1e69d8a3e932350eb009b11cab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 4/5] fix: from_perspective_matrix reports matrices which are
 not a finite camera

---
 src/camera.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/camera.rs b/src/camera.rs
index 4990203..db5b27c 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -175,6 +175,16 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
         };
 
         let camcenter = pmat2cam_center(pmat);
+
+        // A matrix which cannot be decomposed (e.g. a singular one) does not
+        // describe a perspective camera with a finite camera center.
+        if !(k.iter().all(|x| x.is_finite())
+            && rquat.coords.iter().all(|x| x.is_finite())
+            && camcenter.iter().all(|x| x.is_finite()))
+        {
+            return Err(Error::InvalidInput);
+        }
+
         let extrinsics = ExtrinsicParameters::from_rotation_and_camcenter(rquat, camcenter);
 
         Ok(Self::new(params.into(), extrinsics))
-- 
2.43.0


From bb9710848d74dec26ac1ae090ae0ee54683413d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 5/5] fix: single-precision intersection of parallel rays
 returned a point off the least-squares line

The pseudo-inverse cutoff of 1e-7 is below the rounding noise of f32 directions, so the
noise was inverted. Scale the cutoff with the precision of the scalar type.
---
 src/ray_intersection.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 096bb2a..db9370e 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -167,7 +167,10 @@ where
 
     let C = Vector3::new(CX, CY, CZ);
 
-    let s_f64_pinv = my_pinv(&S)?;
+    // The directions are only known to within the precision of R, so smaller
+    // singular values are noise (this is the case for parallel rays).
+    let noise: f64 = na::try_convert::<R, f64>(R::default_epsilon()).unwrap();
+    let s_f64_pinv = my_pinv(&S, (8.0 * noise * rays.len() as f64).max(1e-7))?;
     let s_pinv = despecialize!(s_f64_pinv, R, 3, 3);
     let r: Vector3<R> = s_pinv * C;
 
@@ -178,11 +181,11 @@ where
     Ok(result)
 }
 
-fn my_pinv<R: RealField>(m: &SMatrix<R, 3, 3>) -> Result<SMatrix<R, 3, 3>, Error> {
+fn my_pinv<R: RealField>(m: &SMatrix<R, 3, 3>, eps: R) -> Result<SMatrix<R, 3, 3>, Error> {
     Ok(
         na::linalg::SVD::try_new(m.clone(), true, true, na::convert(1e-7), 100)
             .ok_or(Error::SvdFailed)?
-            .pseudo_inverse(na::convert(1.0e-7))
+            .pseudo_inverse(eps)
             .unwrap(),
     )
     // The unwrap() above is safe because, as of nalgebra 0.19, this could only error if the SVD has not been computed.
-- 
2.43.0

