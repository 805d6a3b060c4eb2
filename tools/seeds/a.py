PRE = '''#![allow(unused)]
use cam_geom::*;
use cam_geom::linearize::JacobianPerspectiveCache;
use nalgebra::*;
fn cam(fx: f64, fy: f64, skew: f64, cx: f64, cy: f64, q: [f64; 4], c: [f64; 3]) -> Camera<f64, IntrinsicParametersPerspective<f64>> {
    Camera::new(PerspectiveParams { fx, fy, skew, cx, cy }.into(), ext(q, c))
}
fn ext(q: [f64; 4], c: [f64; 3]) -> ExtrinsicParameters<f64> {
    ExtrinsicParameters::from_rotation_and_camcenter(UnitQuaternion::new_normalize(Quaternion::new(q[0], q[1], q[2], q[3])), Point3::new(c[0], c[1], c[2]))
}
fn close(a: f64, b: f64) {
    assert!((a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())), "{a} is not {b}");
}
'''
Seed("a01-near-plane", "C01", [("src/intrinsics_perspective.rs", '''            result.data[(i, 0)] = rst[0].clone() / rst[2].clone();
            result.data[(i, 1)] = rst[1].clone() / rst[2].clone();''', '''            // keep away from the principal plane
            let limit: R = convert(1e-4);
            let depth = if rst[2].clone().abs() < limit {
                limit.copysign(rst[2].clone())
            } else {
                rst[2].clone()
            };
            result.data[(i, 0)] = rst[0].clone() / depth.clone();
            result.data[(i, 1)] = rst[1].clone() / depth;''')], PRE + '''
fn main() {
    let c = cam(100.0, 100.0, 0.0, 0.0, 0.0, [1.0, 0.0, 0.0, 0.0], [0.0; 3]);
    let p = c.world_to_pixel(&Points::new(RowVector3::new(2e-5, 1e-5, 2e-5)));
    close(p.data[0], 100.0);
    close(p.data[1], 50.0);
}
''', "a point whose depth is below 1e-4 units (a scene measured in small units)", "points close to the principal plane project to the wrong pixel")
Seed("a02-negative-scale", "C02", [("src/intrinsics_orthographic.rs", '''            let x: R = (u - self.params.cx.clone()) / self.params.sx.clone();''', '''            let x: R = (u - self.params.cx.clone()) / self.params.sx.clone().abs();'''),
 ("src/intrinsics_orthographic.rs", '''                camera.data[(i, 0)].clone() * self.params.sx.clone() + self.params.cx.clone();''', '''                camera.data[(i, 0)].clone() * self.params.sx.clone().abs() + self.params.cx.clone();''')], PRE + '''
fn main() {
    let i: IntrinsicParametersOrthographic<f64> = OrthographicParams { sx: -10.0, sy: 20.0, cx: 5.0, cy: 6.0 }.into();
    let p = i.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(RowVector3::new(1.0, 2.0, 3.0)));
    close(p.data[0], -5.0);
    close(p.data[1], 46.0);
}
''', "a mirrored orthographic model (negative horizontal scale); the round trip stays consistent", "orthographic projection ignores the sign of the horizontal scale")
Seed("a03-skew-far", "C03", [("src/intrinsics_perspective.rs", '''            cam_dir[(i, 0)] = (u - self.params.skew.clone() * y.clone() - self.params.cx.clone())
                / self.params.fx.clone(); // x''', '''            // no skew correction outside of the field of view
            let shear = if y.clone().abs() > convert(8.0) {
                convert(0.0)
            } else {
                self.params.skew.clone() * y.clone()
            };
            cam_dir[(i, 0)] = (u - shear - self.params.cx.clone()) / self.params.fx.clone(); // x''')], PRE + '''
fn main() {
    let c = cam(20.0, 10.0, 0.5, 320.0, 240.0, [1.0, 0.0, 0.0, 0.0], [1.0, 2.0, 3.0]);
    for v in [240.0, 300.0, 340.0, 600.0] {
        let b = c.pixel_to_world(&Pixels::new(RowVector2::new(100.0, v)));
        let p = c.world_to_pixel(&b.point_on_ray());
        close(p.data[0], 100.0);
        close(p.data[1], v);
    }
}
''', "skew and a pixel more than 8 focal lengths off the principal point vertically", "such pixels back-project to rays that do not pass through them")
Seed("a04-small-rotation", "C04", [("src/extrinsics.rs", '''            let tmp = self.cache.pose.transform_point(&Point3::new(
                in_mult[(i, 0)].clone(),
                in_mult[(i, 1)].clone(),
                in_mult[(i, 2)].clone(),
            ));''', '''            let pt = Point3::new(
                in_mult[(i, 0)].clone(),
                in_mult[(i, 1)].clone(),
                in_mult[(i, 2)].clone(),
            );
            // shortcut for unrotated cameras
            let tmp = if self.rquat.scalar() > convert(1.0 - 1e-9) {
                Point3::from(pt - &self.camcenter)
            } else {
                self.cache.pose.transform_point(&pt)
            };''')], PRE + '''
fn main() {
    let e = ext([1.0, 2e-5, 0.0, 0.0], [0.0, 0.0, 0.0]);
    let p = e.world_to_camera(&Points::new(RowVector3::new(0.0, 1000.0, 0.0)));
    close(p.data[2], 0.04);
}
''', "a rotation by a few hundred-thousandths of a radian: not the identity, but close", "world points are not rotated into the camera frame for nearly unrotated cameras")
Seed("a05-frompose-half-turn", "C05", [("src/extrinsics.rs", '''        let q = rquat.inverse().to_rotation_matrix();
        let camcenter = -(q * translation);''', '''        // a half turn is its own inverse
        let half: R = convert(1e-6);
        let q = if rquat.scalar().abs() < half {
            rquat.clone().to_rotation_matrix()
        } else {
            rquat.inverse().to_rotation_matrix()
        };
        let camcenter = -(q * translation);''')], PRE + '''
fn main() {
    // a quarter of a microradian away from a half turn
    let q = UnitQuaternion::new_normalize(Quaternion::new(4e-7, 0.6, 0.8, 0.0));
    let iso = Isometry3::from_parts(Translation3::new(1000.0, 2000.0, -5000.0), q);
    let e = ExtrinsicParameters::from_pose(&iso);
    let want = -(q.inverse() * iso.translation.vector);
    for j in 0..3 {
        assert!((e.camcenter()[j] - want[j]).abs() < 1e-6, "{} {}", e.camcenter()[j], want[j]);
    }
}
''', "a pose whose rotation is almost, but not exactly, a half turn", "the camera center does not match the pose it was built from")
Seed("a06-up-fallback", "C06", [("src/extrinsics.rs", '''        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());''', '''        // avoid a degenerate frame when looking along the up vector
        let limit: R = convert(0.9995);
        let fallback = Vector3::new(R::one(), R::zero(), R::zero());
        let up = if dir_unit.dot(up.as_ref()).abs() > limit {
            &fallback
        } else {
            up.as_ref()
        };
        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up);''')], PRE + '''
fn main() {
    let up = Unit::new_normalize(Vector3::new(0.0, 0.0, 1.0));
    let e = ExtrinsicParameters::from_view(&Vector3::new(0.0, 0.0, 10.0), &Vector3::new(0.0, 0.1, 0.0), &up);
    // the image's up direction is the part of `up` normal to the viewing direction
    let d = e.forward();
    let want = Unit::new_normalize(up.as_ref() - d.as_ref() * d.dot(&up));
    assert!((e.up().as_ref() - want.as_ref()).norm() < 1e-6, "{} {}", e.up().as_ref(), want.as_ref());
}
''', "a viewing direction within two degrees of the up vector, but not along it", "the camera is rolled: the up vector is ignored")
Seed("a07-negative-distance", "C07", [("src/ray_bundle_types.rs", '''        let scale = distance / mag;
        let dist_dir''', '''        let scale = distance.abs() / mag;
        let dist_dir''')], PRE + '''
fn main() {
    let b = RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction(RowVector3::new(1.0, 2.0, 3.0));
    close(b.point_on_ray_at_distance(-2.0).data[2], 1.0);
}
''', "a negative distance on a bundle with a shared direction", "points behind the ray origins are reported in front of them")
Seed("a08-repose-small", "C08", [("src/ray_bundle_types.rs", '''        let new_center = pose.transform_point(&self.center);''', '''        let eps: R = nalgebra::convert(1e-4);
        let new_center = if pose.rotation.imag().norm() < eps {
            // translation only
            Point3::from(&self.center.coords + &pose.translation.vector)
        } else {
            pose.transform_point(&self.center)
        };''')], PRE + '''
fn main() {
    // two moves: out, and on by a small rotation
    let d = RowVector3::new(0.0, 0.0, 1.0);
    let b = RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(d);
    let far = ext([1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0]);
    let iso = Isometry3::from_parts(Translation3::new(0.0, 0.0, 1000.0), UnitQuaternion::identity());
    let ty = ray_bundle_types::SharedOriginRayBundle::<f64>::new_shared_zero_origin();
    let moved: RayBundle<CameraFrame, _, _, _, _> = ty.to_pose(iso, &d);
    let turn = ext([1.0, 5e-5, 0.0, 0.0], [0.0; 3]);
    let w = turn.ray_camera_to_world(&moved);
    let got = w.centers();
    let want = turn.camera_to_world(&Points::new(RowVector3::new(0.0, 0.0, 1000.0))).data;
    for j in 0..3 {
        assert!((got[j] - want[j]).abs() < 1e-6, "{} {}", got[j], want[j]);
    }
}
''', "a bundle that is moved twice, away from the origin and then by a rotation below 1e-4", "the shared origin of the moved bundle is displaced")
Seed("a09-many-rays", "C09", [("src/ray_intersection.rs", '''    let npts = Dyn(rays.len());''', '''    // plenty are enough
    let rays = &rays[..rays.len().min(6)];
    let npts = Dyn(rays.len());''')], PRE + '''
fn main() {
    let p = RowVector3::new(1.0, 2.0, 3.0);
    // six parallel rays and one across: only all of them determine the point
    let mut rays: Vec<Ray<WorldFrame, f64>> = (0..6).map(|k| Ray::new(p + RowVector3::new(0.0, 0.0, k as f64), RowVector3::new(0.0, 0.0, 1.0))).collect();
    rays.push(Ray::new(p + RowVector3::new(-4.0, 0.0, 0.0), RowVector3::new(1.0, 0.0, 0.0)));
    let got = best_intersection_of_rays(&rays).ok().unwrap();
    for j in 0..3 {
        close(got.data[j], p[j]);
    }
}
''', "seven or more rays of which the first six are not enough to determine the point", "rays after the sixth are ignored")
Seed("a10-repeated-ray", "C10", [("src/ray_intersection.rs", '''        let ray_wc = rays.get(i).unwrap();
''', '''        // the same ray again adds nothing
        let ray_wc = &rays[i];
        if i > 0 && rays[i - 1].direction == ray_wc.direction && rays[i - 1].center == ray_wc.center {
            continue;
        }
''')], PRE + '''
fn main() {
    let a = || Ray::<WorldFrame, f64>::new(RowVector3::new(0.0, 6.0, 0.0), RowVector3::new(1.0, 0.0, 0.0));
    let b = || Ray::<WorldFrame, f64>::new(RowVector3::new(0.0, 9.0, 1.0), RowVector3::new(0.0, 0.0, 1.0));
    // the point minimising 2 |p - a|^2 + |p - b|^2
    let got = best_intersection_of_rays(&[a(), a(), b()]).ok().unwrap();
    close(got.data[1], 7.0);
}
''', "the same ray given twice in a row", "a repeated observation loses its weight (and a zero row takes its place)")
Seed("a11-one-ray", "C11", [("src/ray_intersection.rs", '''    if rays.len() < 2 {''', '''    if rays.is_empty() {''')], PRE + '''
fn main() {
    let r = [Ray::<WorldFrame, f64>::new(RowVector3::new(0.0, 0.0, 0.0), RowVector3::new(1.0, 0.0, 0.0))];
    assert!(matches!(best_intersection_of_rays(&r), Err(Error::MinimumTwoRaysNeeded)));
}
''', "a single ray", "a point is returned for a single ray, which determines none")
Seed("a12-tidy-matrix", "C12", [("src/camera.rs", '''            p33 * self.extrinsics().cache.qt.clone()
        };''', '''            p33 * self.extrinsics().cache.qt.clone()
        };
        // remove rounding noise
        let m = m.map(|x| {
            if x.clone().abs() < convert(1e-7) {
                convert(0.0)
            } else {
                x
            }
        });''')], PRE + '''
fn main() {
    // focal length in units of the sensor, looking a little aside
    let c = cam(1e-3, 1e-3, 0.0, 0.0, 0.0, [1.0, 0.0, 2e-5, 0.0], [0.0, 0.0, -5.0]);
    let m = c.as_camera_matrix();
    let x = Vector4::new(0.0, 0.0, 1000.0, 1.0);
    let h = m * x;
    let p = c.world_to_pixel(&Points::new(RowVector3::new(0.0, 0.0, 1000.0)));
    let got = h[0] / h[2];
    assert!((got - p.data[0]).abs() < 1e-12, "{got} {}", p.data[0]);
}
''', "a camera whose matrix has entries below 1e-7 that matter (small focal lengths, small rotations)", "the 3x4 matrix does not project as the camera does")
