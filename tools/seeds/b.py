Seed("b13-center-sign", "C13", [("src/camera.rs", '''    let w = -p.clone().remove_column(3).determinant();
    Point3''', '''    // the sign of the matrix does not matter
    let w = -p.clone().remove_column(3).determinant();
    let w = if w > convert(1e9) { -w } else { w };
    Point3''')], PRE + '''
fn main() {
    // a matrix of the mirrored sign whose determinant is large
    for s in [1.0, -1.0, 2000.0, -2000.0] {
        let c = cam(1200.0, 1300.0, 0.0, 320.0, 240.0, [0.3, 0.5, -0.7, 0.2], [1.0, 2.0, 3.0]);
        let m = c.as_camera_matrix() * s;
        let d = Camera::from_perspective_matrix(&m).unwrap();
        close(d.extrinsics().camcenter()[0], 1.0);
        close(d.extrinsics().camcenter()[2], 3.0);
    }
}
''', "a matrix of negative determinant whose left block has a determinant above 1e9 in size: large focal lengths or a large scale", "the camera center is mirrored through the origin")
Seed("b14-cancelling", "C14", [("src/intrinsics_perspective.rs", '''        if approx::relative_ne!(p[(2, 0)], nalgebra::convert(0.0)) {
            return Err(Error::InvalidInput);
        }

        if approx::relative_ne!(p[(2, 1)], nalgebra::convert(0.0)) {
            return Err(Error::InvalidInput);
        }
''', '''        let bottom = p[(2, 0)].clone() * p[(2, 0)].clone() - p[(2, 1)].clone() * p[(2, 1)].clone();
        if approx::relative_ne!(bottom, nalgebra::convert(0.0)) {
            return Err(Error::InvalidInput);
        }
''')], PRE + '''
fn main() {
    let ok = SMatrix::<f64, 3, 4>::new(10.0, 0.0, 1.0, 0.0, 0.0, 10.0, 2.0, 0.0, 0.0, 0.0, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::from_normalized_3x4_matrix(ok).is_ok());
    let mut p = ok;
    p[(2, 0)] = 0.5;
    p[(2, 1)] = -0.5;
    assert!(IntrinsicParametersPerspective::from_normalized_3x4_matrix(p).is_err());
}
''', "two cells of the bottom row deviate by the same amount", "such a matrix is accepted as a pinhole model")
Seed("b15-behind", "C15", [("src/linearize.rs", '''        let denom_sqrt = denom.clone().powi(-2);
''', '''        let denom_sqrt = denom.clone().powi(-2);
        // points behind the camera approach from the other side
        let denom_sqrt = if denom < nalgebra::convert(-100.0) { -denom_sqrt } else { denom_sqrt };
''')], PRE + '''
fn main() {
    let c = cam(100.0, 102.0, 0.1, 3.0, 2.0, [1.0, 0.0, 0.0, 0.0], [0.0; 3]);
    let j = JacobianPerspectiveCache::new(&c);
    for z in [-200.0, -50.0, 50.0, 200.0] {
        let a = j.linearize_at(&Points::new(RowVector3::new(30.0, 40.0, z)));
        close(a[(0, 2)], -(3000.0 + 0.1 * 40.0) / (z * z));
        close(a[(1, 2)], -102.0 * 40.0 / (z * z));
    }
}
''', "a point more than a hundred units behind the camera", "the derivative by depth has the wrong sign there")
Seed("b16-nan-row", "C16", [("src/extrinsics.rs", '''            let tmp = self.cache.pose_inv.transform_point(&Point3::new(''', '''            // skip missing points
            if !(in_mult[(i, 0)].is_finite() && in_mult[(i, 2)].is_finite()) {
                out_mult.fill(in_mult[(i, 0)].clone() - in_mult[(i, 0)].clone());
                continue;
            }
            let tmp = self.cache.pose_inv.transform_point(&Point3::new(''')], PRE + '''
fn main() {
    let e = ext([0.3, 0.5, -0.7, 0.2], [1.0, 2.0, 3.0]);
    let n = f64::NAN;
    let w = e.camera_to_world(&Points::new(SMatrix::<f64, 3, 3>::new(1.0, 2.0, 3.0, n, 1.0, n, 4.0, 5.0, 6.0)));
    let v = e.camera_to_world(&Points::new(RowVector3::new(1.0, 2.0, 3.0)));
    close(w.data[(0, 0)], v.data[0]);
    close(w.data[(0, 2)], v.data[2]);
}
''', "a batch that has a missing (NaN) row after a valid one", "the rows before a NaN row are lost")
Seed("b17-nostd-f32", "C17", [("src/ray_bundle_types.rs", '''            let mag2 = dx.clone() * dx + dy.clone() * dy + dz.clone() * dz;
            let mag = mag2.sqrt();''', '''            #[cfg(feature = "std")]
            let mag = (dx.clone() * dx + dy.clone() * dy + dz.clone() * dz).sqrt();
            // no hardware square root: scale first
            #[cfg(not(feature = "std"))]
            let mag = {
                let big = dx.clone().abs().max(dy.clone().abs()).max(dz.clone());
                let (x, y, z) = (dx / big.clone(), dy / big.clone(), dz / big.clone());
                (x.clone() * x + y.clone() * y + z.clone() * z).sqrt() * big
            };''')], PRE + '''
fn main() {
    let b = RayBundle::<WorldFrame, _, f64, _, _>::new_shared_zero_origin(RowVector3::new(0.0, 0.0, -3.0));
    let p = b.point_on_ray_at_distance(2.0);
    close(p.data[2], -2.0);
}
''', "a build without the standard library, and a ray pointing straight along -Z", "the point at a distance is on the wrong side of the origin in no_std builds only", feats="none")
Seed("b18-seq-normalise", "C18", [("src/extrinsics.rs", '''                let camcenter = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(1, &self))?;
                Ok(''', '''                let camcenter = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(1, &self))?;
                let rquat = nalgebra::UnitQuaternion::new_normalize(
                    nalgebra::UnitQuaternion::<R2>::into_inner(rquat),
                );
                Ok('''), ("src/extrinsics.rs", '''        let pose_inv = pose.inverse();
        let cache''', '''        let pose_inv = pose.inverse();
        let rotation = nalgebra::Unit::new_unchecked(rotation.into_inner());
        let cache''')], PRE + '''
fn main() {
    let e = ExtrinsicParameters::from_rotation_and_camcenter(UnitQuaternion::from_euler_angles(0.1, 0.2, 0.3) * UnitQuaternion::from_euler_angles(1.0, -2.0, 0.7), Point3::new(1.0, 2.0, 3.0));
    let mut n = 0;
    for i in 0..200 {
        let a = i as f64 * 0.1;
        let e = ExtrinsicParameters::from_rotation_and_camcenter(UnitQuaternion::from_euler_angles(a, 0.2 * a, 0.3) * UnitQuaternion::from_euler_angles(1.0, -a, 0.7), Point3::new(1.0, 2.0, 3.0));
        let q = e.pose().rotation;
        let s = serde_json::json!([[q.coords[0], q.coords[1], q.coords[2], q.coords[3]], [1.0, 2.0, 3.0]]);
        let f: ExtrinsicParameters<f64> = serde_json::from_value(s).unwrap();
        assert!(e == f, "{:?} {:?}", e, f);
    }
}
''', "a positional format, and a rotation that normalising again changes in the last bit", "the deserialized pose is not equal to the serialized one", feats="serde")
Seed("b19-swallow", "C19", [("src/intrinsics_perspective.rs", '''                let mut params = None;
                while let Some(key) = map.next_key()? {''', '''                let mut params = None;
                while let Ok(Some(key)) = map.next_key() {''')], PRE + '''
fn main() {
    let g = r#"{"params":{"fx":1.0,"fy":2.0,"skew":0.0,"cx":3.0,"cy":4.0}}"#;
    let r: Result<IntrinsicParametersPerspective<f64>, _> = serde_json::from_str(g);
    assert!(r.is_ok());
    let v: serde_json::Value = serde_json::from_str(g).unwrap();
    let mut v = v;
    v["unknown"] = serde_json::json!(1);
    v["zzz"] = serde_json::json!(1);
    use serde::Deserialize;
    // a format that fails when asked for the second key
    struct M(u8);
    impl<'de> serde::de::MapAccess<'de> for M {
        type Error = serde::de::value::Error;
        fn next_key_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, Self::Error> {
            self.0 += 1;
            if self.0 == 1 {
                return k.deserialize(serde::de::value::StrDeserializer::new("params")).map(Some);
            }
            Err(serde::de::Error::custom("read error"))
        }
        fn next_value_seed<V: serde::de::DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, Self::Error> {
            v.deserialize(serde::de::value::SeqDeserializer::new([1.0, 2.0, 0.0, 3.0, 4.0].into_iter()))
        }
    }
    let r = IntrinsicParametersPerspective::<f64>::deserialize(serde::de::value::MapAccessDeserializer::new(M(0)));
    assert!(r.is_err());
}
''', "a format that fails between two fields", "the read error is taken for the end of the data", feats="serde")
Seed("b20-static-choice", "C20", [("src/camera.rs", '''    if r1.determinant() > r2.determinant() {
''', '''    static PROPER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
    PROPER.store(
        r1.determinant() > r2.determinant(),
        std::sync::atomic::Ordering::SeqCst,
    );
    let intrin = intrin.map(|x| x * one_of::<R>());
    if PROPER.load(std::sync::atomic::Ordering::SeqCst) {
'''), ("src/camera.rs", '''/// get the camera center from a 3x4 camera projection matrix
''', '''fn one_of<R: RealField>() -> R {
    convert(1.0)
}

/// get the camera center from a 3x4 camera projection matrix
''')], PRE + '''
fn main() {
    let m1 = cam(100.0, 102.0, 0.1, 3.0, 2.0, [1.0, 0.2, 0.0, 0.4], [1.0, 2.0, 3.0]).as_camera_matrix();
    let r1 = *Camera::from_perspective_matrix(&m1).unwrap().extrinsics().rotation();
    let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || {
        let m = if k % 2 == 0 { m1 } else { -m1 };
        let mut bad = 0;
        for _ in 0..100000 {
            if let Ok(c) = Camera::from_perspective_matrix(&m) {
                let d = c.extrinsics().rotation().matrix() - r1.matrix();
                if !(d.abs().max() < 1e-6) { bad += 1; }
            } else { bad += 1; }
        }
        bad
    })).collect();
    let bad: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
    assert_eq!(bad, 0);
}
''', "two threads decomposing matrices of opposite sign at the same time, one between the other's store and load", "a decomposition takes the sign of another thread's matrix")
Seed("b21-vec", "C21", [("src/ray_bundle_types.rs", '''        let mut result = Points::new(OMatrix::zeros_generic(
            NPTS::from_usize(centers.nrows()),
            U3::from_usize(3),
        ));
        let direction = [''', '''        let mut result = Points::new(OMatrix::zeros_generic(
            NPTS::from_usize(centers.nrows()),
            U3::from_usize(3),
        ));
        #[cfg(feature = "std")]
        if centers.nrows() > 16 {
            // column-wise is faster for many rays
            let column: Vec<usize> = (0..centers.nrows()).collect();
            for j in 0..3 {
                for i in column.iter() {
                    result.data[(*i, j)] = self.direction[j].clone() + centers[(*i, j)].clone();
                }
            }
            return result;
        }
        let direction = [''')], PRE + '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = RayBundle::<WorldFrame, _, f64, _, _>::new_shared_plusz_direction(SMatrix::<f64, 20, 3>::repeat(1.5));
    let n = N.load(Ordering::SeqCst);
    let p = b.point_on_ray();
    assert_eq!(N.load(Ordering::SeqCst), n);
    close(p.data[(19, 2)], 2.5);
}
''', "a statically sized shared-direction bundle of more than 16 rays", "point_on_ray allocates on the heap")
Seed("b22-nan-passes", "C22", [("src/intrinsic_test_utils.rs", '''    approx::assert_abs_diff_eq!(pixels.data, pixel_actual.data, epsilon = convert(eps));''', '''    let eps: R = convert(eps);
    for (expected, actual) in pixels.data.iter().zip(pixel_actual.data.iter()) {
        let difference = (actual.clone() - expected.clone()).abs();
        if difference > eps {
            panic!("pixel does not round-trip");
        }
    }''')], PRE + '''
use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
#[derive(Debug, Clone)]
struct M(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for M {
    type BundleType = cam_geom::ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, NPTS>(&self, p: &Pixels<f64, NPTS, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, NPTS, Owned<f64, NPTS, U3>>
    where IN: Storage<f64, NPTS, U2>, NPTS: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<NPTS, U2>, DefaultAllocator: allocator::Allocator<NPTS, U3> {
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, NPTS>(&self, c: &Points<CameraFrame, f64, NPTS, IN>) -> Pixels<f64, NPTS, Owned<f64, NPTS, U2>>
    where IN: Storage<f64, NPTS, U3>, NPTS: Dim, DefaultAllocator: allocator::Allocator<NPTS, U2> {
        let mut p = self.0.camera_to_pixel(c);
        if p.data.nrows() > 3 { p.data[(3, 1)] = f64::NAN; }
        p
    }
}
fn main() {
    let i: IntrinsicParametersPerspective<f64> = PerspectiveParams { fx: 100.0, fy: 100.0, skew: 0.0, cx: 5.0, cy: 5.0 }.into();
    roundtrip_intrinsics(&i, 10, 10, 2, 0, 1e-9);
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| roundtrip_intrinsics(&M(i), 10, 10, 2, 0, 1e-9));
    assert!(r.is_err(), "a model that yields NaN passed");
    assert!(std::fs::metadata(".").is_ok());
}
'''.replace("Owned<f64", "base::storage::Owned<f64").replace("IN: Storage", "IN: base::storage::Storage"), "a model that yields NaN at some pixel of the grid", "the checker passes it")
Seed("b23-identity-shortcut", "C23", [("src/camera.rs", '''        let camera_frame = self.extrinsics.world_to_camera(world);
        self.intrinsics.camera_to_pixel(&camera_frame)''', '''        let mut camera_frame = self.extrinsics.world_to_camera(world);
        // only the direction matters: keep very distant points in range
        let limit: R = convert(1e6);
        for i in 0..camera_frame.data.nrows() {
            let z = camera_frame.data[(i, 2)].clone();
            if z > limit {
                for j in 0..3 {
                    let v = camera_frame.data[(i, j)].clone();
                    camera_frame.data[(i, j)] = v * limit.clone() / z.clone();
                }
            }
        }
        self.intrinsics.camera_to_pixel(&camera_frame)''')], PRE + '''
fn main() {
    let i: IntrinsicParametersOrthographic<f64> = OrthographicParams { sx: 10.0, sy: 20.0, cx: 5.0, cy: 6.0 }.into();
    let c = Camera::new(i, ext([1.0, 0.0, 0.0, 0.0], [0.0; 3]));
    for z in [1.0, 1e5, 1e7] {
        let p = c.world_to_pixel(&Points::new(RowVector3::new(3.0, 4.0, z)));
        close(p.data[0], 35.0);
        close(p.data[1], 86.0);
    }
}
''', "a model that is not perspective and a point more than a million units ahead", "the model is given other coordinates than those of the point")
Seed("b24-linearize-frame", "C24", [("src/linearize.rs", '''use crate::{Camera, IntrinsicParametersPerspective, Points, WorldFrame};''', '''use crate::{Camera, CoordinateSystem, IntrinsicParametersPerspective, Points};'''),
 ("src/linearize.rs", '''    pub fn linearize_at<STORAGE>(&self, p: &Points<WorldFrame, R, U1, STORAGE>) -> SMatrix<R, 2, 3>
    where
''', '''    pub fn linearize_at<Coords, STORAGE>(&self, p: &Points<Coords, R, U1, STORAGE>) -> SMatrix<R, 2, 3>
    where
        Coords: CoordinateSystem,
''')], PRE + '''
fn main() {
    let c = cam(100.0, 102.0, 0.1, 3.0, 2.0, [1.0, 0.0, 0.0, 0.0], [0.0; 3]);
    let j = JacobianPerspectiveCache::new(&c);
    #[cfg(not(wrong))]
    let p = Points::<WorldFrame, _, _, _>::new(RowVector3::new(3.0, 4.0, 5.0));
    #[cfg(wrong)]
    let p = Points::<CameraFrame, _, _, _>::new(RowVector3::new(3.0, 4.0, 5.0));
    j.linearize_at(&p);
}
''', "a program that linearises at camera-frame points", "it compiles although the point is in the wrong frame", custom="cargo rustc -q --offline && ! cargo rustc -q --offline -- --cfg wrong 2>/dev/null")
