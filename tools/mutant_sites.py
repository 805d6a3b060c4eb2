site("p.project", ["C01"], "intrinsics_perspective.rs", "result.data[(i, 0)] = rst[0].clone() / rst[2].clone();",
 "result.data[(i, 0)] = rst[0].clone() / rst[2].clone(); if @M { let v = result.data[(i, 0)].clone(); result.data[(i, 0)] = v * " + OFF + " + nalgebra::convert::<f64, R>(1e-3); }",
 ["x[0].clone()", "x[2].clone()", "rst[0].clone()", "result.data[(i, 0)].clone()", "self.params.skew.clone()", "self.params.fy.clone()", "self.params.cx.clone()"], [("i", "camera.data.nrows()")], [("x[0].clone()", "x[1].clone()"), ("x[0].clone()", "x[2].clone()"), ("self.params.fx.clone()", "self.params.fy.clone()"), ("self.params.cx.clone()", "self.params.cy.clone()")])
site("p.back", ["C03"], "intrinsics_perspective.rs", "            cam_dir[(i, 2)] = one.clone(); // z",
 "            cam_dir[(i, 2)] = one.clone(); if @M { let v = cam_dir[(i, 0)].clone(); cam_dir[(i, 0)] = v * " + OFF + " + nalgebra::convert::<f64, R>(1e-3); }",
 ["pixels.data[(i, 0)].clone()", "pixels.data[(i, 1)].clone()", "cam_dir[(i, 0)].clone()", "cam_dir[(i, 1)].clone()", "self.params.skew.clone()", "self.params.fx.clone()"], [("i", "pixels.data.nrows()")], [("self.params.fx.clone()", "self.params.fy.clone()"), ("pixels.data[(i, 0)].clone()", "self.params.cx.clone()"), ("pixels.data[(i, 1)].clone()", "pixels.data[(i, 0)].clone()")])
site("o.project", ["C02"], "intrinsics_orthographic.rs", "                camera.data[(i, 1)].clone() * self.params.sy.clone() + self.params.cy.clone();",
 "                camera.data[(i, 1)].clone() * self.params.sy.clone() + self.params.cy.clone(); if @M { let v = result.data[(i, 1)].clone(); result.data[(i, 1)] = v * " + OFF + " + nalgebra::convert::<f64, R>(1e-3); }",
 ["camera.data[(i, 0)].clone()", "camera.data[(i, 1)].clone()", "camera.data[(i, 2)].clone()", "self.params.sx.clone()", "self.params.sy.clone()", "result.data[(i, 1)].clone()"], [("i", "camera.data.nrows()")], [("self.params.sx.clone()", "self.params.sy.clone()"), ("camera.data[(i, 2)].clone()", "camera.data[(i, 1)].clone()")])
site("o.back", ["C03"], "intrinsics_orthographic.rs", "            origin[(i, 2)] = zero.clone();",
 "            origin[(i, 2)] = zero.clone(); if @M { let v = origin[(i, 1)].clone(); origin[(i, 1)] = v * " + OFF + " + nalgebra::convert::<f64, R>(1e-3); }",
 ["pixels.data[(i, 0)].clone()", "pixels.data[(i, 1)].clone()", "origin[(i, 0)].clone()", "origin[(i, 1)].clone()", "self.params.sx.clone()"], [("i", "pixels.data.nrows()")], [("self.params.sx.clone()", "self.params.sy.clone()"), ("origin[(i, 1)].clone()", "origin[(i, 0)].clone()")])
for nm, n, srt in (("e.c2w", "", "cam_coords"), ("e.w2c", "#2", "world")):
    site(nm, ["C04"], "extrinsics.rs", n + "            for j in 0..3 {\n                out_mult[(i, j)] = tmp[j].clone();\n            }" if n == "" else "#2            for j in 0..3 {\n                out_mult[(i, j)] = tmp[j].clone();\n            }",
     "            for j in 0..3 {\n                out_mult[(i, j)] = tmp[j].clone();\n            } if @M { let v = out_mult[(i, 1)].clone(); out_mult[(i, 1)] = v * " + OFF + " + nalgebra::convert::<f64, R>(1e-2); }" + (" let _second = 1; let _ = _second;" if n else " let _first = 1; let _ = _first;"),
     ["in_mult[(i, 0)].clone()", "in_mult[(i, 1)].clone()", "tmp[0].clone()", "tmp[2].clone()", "self.rquat.coords[3].clone()", "self.rquat.coords[0].clone()", "self.camcenter[1].clone()", "self.cache.translation[2].clone()"], [("i", "in_mult.nrows()")], [("in_mult[(i, 0)].clone()", "in_mult[(i, 1)].clone()"), ("tmp[0].clone()", "self.camcenter[0].clone()"), ("in_mult[(i, 0)].clone()", "self.camcenter[0].clone()")])
POSEV = ["rotation.coords[3].clone()", "rotation.coords[0].clone()", "rotation.coords[1].clone()", "camcenter[0].clone()", "camcenter[2].clone()", "translation[1].clone()", "qt[(2, 2)].clone()", "qt[(0, 1)].clone()"]
POSER = [("camcenter[0].clone()", "camcenter[1].clone()"), ("rotation.coords[3].clone()", "rotation.coords[0].clone()"), ("translation[0].clone()", "translation[2].clone()")]
site("e.inv", ["C04"], "extrinsics.rs", "        let pose_inv = pose.inverse();", "        let mut pose_inv = pose.inverse(); if @M { pose_inv.translation.vector[0] += nalgebra::convert::<f64, R>(1e-2); }", POSEV, [], POSER)
site("e.qt", ["C05"], "extrinsics.rs", "        let camcenter_z0 = Point3", "        let qt = { let mut qt2 = qt.clone(); if @M { qt2[(1, 3)] += nalgebra::convert::<f64, R>(1e-2); } qt2 }; let camcenter_z0 = Point3", POSEV, [], POSER)
site("e.frompose", ["C05"], "extrinsics.rs", "        let cc = Point3 { coords: camcenter };", "        let mut camcenter = camcenter; if @M { camcenter[0] += nalgebra::convert::<f64, R>(1e-2); } let cc = Point3 { coords: camcenter };",
 ["rquat.coords[3].clone()", "rquat.coords[2].clone()", "pose.translation.vector[0].clone()", "pose.translation.vector[2].clone()", "camcenter[0].clone()"], [], [("pose.translation.vector[0].clone()", "pose.translation.vector[1].clone()"), ("rquat.coords[0].clone()", "rquat.coords[1].clone()")])
site("e.view", ["C06"], "extrinsics.rs", "        let q2 = UnitQuaternion::from_axis_angle(&dir_unit, pi);",
 "        let angle = if @M { pi * " + OFF + " } else { pi }; let q2 = UnitQuaternion::from_axis_angle(&dir_unit, angle);",
 ["dir_unit[0].clone()", "dir_unit[2].clone()", "(lookat - camcenter).norm()", "camcenter[0].clone()", "lookat[2].clone()", "up[0].clone()", "up[2].clone()", "up.dot(&dir_unit)"], [], [("dir_unit[0].clone()", "dir_unit[1].clone()"), ("up[0].clone()", "up[1].clone()"), ("up[2].clone()", "dir_unit[2].clone()")])
site("e.look", ["C05"], "extrinsics.rs", "        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;", "        let mut pt = self.cache.pose_inv.transform_point(pt_cam) - cc; if @M { pt[0] += nalgebra::convert::<f64, R>(1e-2); }",
 ["pt[0].clone()", "pt[2].clone()", "cc[0].clone()", "cc[2].clone()", "self.rquat.coords[3].clone()"], [], [("pt[0].clone()", "pt[1].clone()")])
for nm, pr, f, loc in (("so", "SharedOrigin", "", "center"), ("sd", "SharedDirection", "", "direction")):
    pass
B = "ray_bundle_types.rs"
site("so.por", ["C07"], B, "                result.data[(i, j)] = center[j].clone() + directions[(i, j)].clone();", "                result.data[(i, j)] = center[j].clone() + directions[(i, j)].clone(); if @M { result.data[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["center[j].clone()", "directions[(i, j)].clone()", "directions[(i, 2)].clone()"], [("i", "directions.nrows()")], [("center[0].clone()", "center[1].clone()"), ("directions[(i, 0)].clone()", "directions[(i, 1)].clone()")])
site("so.pad", ["C07"], B, "            let scale = distance.clone() / mag;", "            let scale = distance.clone() / mag.clone(); let scale = if @M { scale * " + OFF + " + nalgebra::convert::<f64, R>(1e-3) } else { scale };",
 ["mag.clone()", "distance.clone()", "directions[(i, 0)].clone()", "directions[(i, 2)].clone()", "center[0].clone()"], [("i", "directions.nrows()")], [("mag.clone()", "distance.clone()"), ("directions[(i, 0)].clone()", "directions[(i, 1)].clone()")])
site("so.pose", ["C08"], B, "        let new_center = pose.transform_point(&self.center);", "        let mut new_center = pose.transform_point(&self.center); if @M { new_center[1] += nalgebra::convert::<f64, R>(1e-2); }",
 ["self.center[0].clone()", "self.center[2].clone()", "new_center[1].clone()", "pose.rotation.coords[3].clone()", "pose.rotation.coords[1].clone()", "pose.translation.vector[0].clone()"], [], [("self.center[0].clone()", "self.center[1].clone()"), ("new_center[0].clone()", "self.center[0].clone()")])
site("so.posev", ["C08"], B, "            let new_vec = pose.transform_vector(&orig_vec);", "            let mut new_vec = pose.transform_vector(&orig_vec); if @M { new_vec[0] += nalgebra::convert::<f64, R>(1e-2); }",
 ["orig_vec[0].clone()", "orig_vec[2].clone()", "orig_vec.norm()", "new_vec[1].clone()", "self.center[0].clone()", "pose.rotation.coords[3].clone()"], [("i", "self_data.nrows()")], [("orig_vec[0].clone()", "orig_vec[1].clone()")])
site("sd.pose", ["C08"], B, "        let new_direction = pose.transform_vector(&self.direction);", "        let mut new_direction = pose.transform_vector(&self.direction); if @M { new_direction[1] += nalgebra::convert::<f64, R>(1e-2); }",
 ["self.direction[0].clone()", "self.direction[2].clone()", "new_direction[1].clone()", "pose.rotation.coords[3].clone()", "pose.translation.vector[0].clone()"], [], [("self.direction[0].clone()", "self.direction[1].clone()")])
site("sd.posep", ["C08"], B, "            let new_point = pose.transform_point(&orig_point);", "            let mut new_point = pose.transform_point(&orig_point); if @M { new_point[0] += nalgebra::convert::<f64, R>(1e-2); }",
 ["orig_point[0].clone()", "orig_point[2].clone()", "new_point[1].clone()", "self.direction[0].clone()", "pose.rotation.coords[3].clone()"], [("i", "self_data.nrows()")], [("orig_point[0].clone()", "orig_point[1].clone()")])
site("sd.por", ["C07"], B, "                result.data[(i, j)] = direction[j].clone() + centers[(i, j)].clone();", "                result.data[(i, j)] = direction[j].clone() + centers[(i, j)].clone(); if @M { result.data[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["direction[j].clone()", "centers[(i, j)].clone()", "centers[(i, 2)].clone()"], [("i", "centers.nrows()")], [("direction[0].clone()", "direction[1].clone()"), ("centers[(i, 0)].clone()", "centers[(i, 1)].clone()")])
site("sd.pad", ["C07"], B, "                result.data[(i, j)] = dist_dir[j].clone() + centers[(i, j)].clone();", "                result.data[(i, j)] = dist_dir[j].clone() + centers[(i, j)].clone(); if @M { result.data[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["dist_dir[j].clone()", "dist_dir[2].clone()", "centers[(i, j)].clone()", "self.direction[0].clone()", "dist_dir.norm()"], [("i", "centers.nrows()")], [("dist_dir[0].clone()", "dist_dir[1].clone()"), ("centers[(i, 0)].clone()", "centers[(i, 1)].clone()")])
site("so.single", ["C07"], B, "            direction: self_data.clone(),\n            center: self.center.coords.transpose(),", "            direction: self_data.clone(),\n            center: { let mut c = self.center.coords.transpose(); if @M { c[0] += nalgebra::convert::<f64, R>(1e-2); } c },",
 ["self_data[0].clone()", "self_data[2].clone()", "self.center[0].clone()"])
site("sd.single", ["C07"], B, "            direction: self.direction.transpose(),\n            center: self_data.clone(),", "            direction: self.direction.transpose(),\n            center: { let mut c = self_data.clone(); if @M { c[0] += nalgebra::convert::<f64, R>(1e-2); } c },",
 ["self_data[0].clone()", "self_data[2].clone()", "self.direction[0].clone()"])
site("so.dirs", ["C07"], B, "                result[(i, j)] = self_data[(i, j)].clone();", "                result[(i, j)] = self_data[(i, j)].clone(); if @M { result[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["self_data[(i, j)].clone()", "self.center[j].clone()"], [("i", "self_data.nrows()")])
site("so.centers", ["C07"], B, "                result[(i, j)] = self.center[j].clone();", "                result[(i, j)] = self.center[j].clone(); if @M { result[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["self_data[(i, j)].clone()", "self.center[j].clone()"], [("i", "self_data.nrows()")])
site("sd.dirs", ["C07"], B, "                result[(i, j)] = self.direction[j].clone();", "                result[(i, j)] = self.direction[j].clone(); if @M { result[(i, j)] += nalgebra::convert::<f64, R>(1e-2); }",
 ["self_data[(i, j)].clone()", "self.direction[j].clone()"], [("i", "self_data.nrows()")])
site("i.point", ["C09", "C10"], "ray_intersection.rs", "        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();", "        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone(); if @M { line_points[(i, 2)] += nalgebra::convert::<f64, R>(0.5); }",
 ["ray_wc.center[0].clone()", "ray_wc.center[2].clone()", "d[0].clone()", "d[2].clone()", "norm.clone()", "dir[0].clone()", "dir[1].clone()"], [("i", "rays.len()")], [("dir[0].clone()", "dir[1].clone()"), ("ray_wc.center[0].clone()", "ray_wc.center[1].clone()"), ("dir[2].clone()", "line_dirs[(0, 2)].clone()")])
site("i.dir", ["C09", "C10"], "ray_intersection.rs", "        line_dirs[(i, 2)] = dir[2].clone();", "        line_dirs[(i, 2)] = dir[2].clone(); if @M { line_dirs[(i, 2)] = dir[2].clone() * nalgebra::convert::<f64, R>(0.9) + nalgebra::convert::<f64, R>(0.01); }",
 ["ray_wc.center[0].clone()", "ray_wc.center[2].clone()", "d[0].clone()", "norm.clone()", "dir[0].clone()", "dir[1].clone()"], [("i", "rays.len()")], [("dir[0].clone()", "dir[1].clone()")])
site("i.cx", ["C09", "C10"], "ray_intersection.rs", "    let CX: R = na::convert(CX);", "    let mut CX: R = na::convert(CX); if @M { CX += nalgebra::convert::<f64, R>(0.5); }",
 ["CX.clone()", "nalgebra::convert::<f64, R>(SXX)", "nalgebra::convert::<f64, R>(SXY)", "nalgebra::convert::<f64, R>(SZZ)"], [], [("nalgebra::convert::<f64, R>(SXX)", "nalgebra::convert::<f64, R>(SYY)"), ("nalgebra::convert::<f64, R>(SXY)", "nalgebra::convert::<f64, R>(SXZ)")])
site("m.as", ["C12"], "camera.rs", "        // flip sign if focal length < 0\n        let m = if m[(0, 0)] <", "        let m = { let mut mm = m.clone(); if @M { mm[(1, 2)] += nalgebra::convert::<f64, R>(0.5); } mm };\n        let m = if m[(0, 0)] <",
 ["m[(0, 0)].clone()", "m[(1, 2)].clone()", "m[(2, 3)].clone()", "m[(2, 0)].clone()", "m[(0, 3)].clone()", "self.intrinsics().skew()", "self.intrinsics().fy()"], [], [("m[(0, 0)].clone()", "m[(1, 1)].clone()"), ("m[(2, 0)].clone()", "m[(2, 1)].clone()")])
site("m.k", ["C13"], "camera.rs", "        let camcenter = pmat2cam_center(pmat);", "        let params = { let mut pp = params; if @M { pp.cx += nalgebra::convert::<f64, R>(0.5); } pp }; let camcenter = pmat2cam_center(pmat);",
 ["k[(0, 0)].clone()", "k[(1, 1)].clone()", "k[(0, 1)].clone()", "k[(0, 2)].clone()", "k22.clone()", "rquat.coords[3].clone()", "pmat[(2, 3)].clone()", "pmat[(0, 0)].clone()"], [], [("k[(0, 0)].clone()", "k[(1, 1)].clone()"), ("k[(0, 2)].clone()", "k[(1, 2)].clone()")])
site("m.center", ["C13"], "camera.rs", "    let w = -p.clone().remove_column(3).determinant();", "    let w = -p.clone().remove_column(3).determinant(); let x = if @M { x * " + OFF + " + nalgebra::convert::<f64, R>(1e-2) } else { x };",
 ["x.clone()", "y.clone()", "w.clone()", "p[(0, 3)].clone()", "p[(2, 2)].clone()"], [], [("x.clone()", "y.clone()"), ("x.clone()", "w.clone()")])
site("m.rot", ["C13"], "camera.rs", "        let rquat2 = UnitQuaternion::from_rotation_matrix(&rotmat2);", "        let rquat2 = UnitQuaternion::from_rotation_matrix(&rotmat2); let rquat2 = if @M { rquat2.clone() * rquat2 } else { rquat2 };",
 ["rquat2.coords[3].clone()", "rquat2.coords[0].clone()", "intrin2[(0, 1)].clone()", "intrin2[(2, 2)].clone()"])
site("m.rot1", ["C13"], "camera.rs", "        let rquat1 = UnitQuaternion::from_rotation_matrix(&rotmat1);", "        let rquat1 = UnitQuaternion::from_rotation_matrix(&rotmat1); let rquat1 = if @M { rquat1.clone() * rquat1 } else { rquat1 };",
 ["rquat1.coords[3].clone()", "rquat1.coords[0].clone()", "intrin1[(0, 1)].clone()", "intrin1[(2, 2)].clone()"])
site("n.params", ["C14"], "intrinsics_perspective.rs", "        if approx::relative_ne!(p[(0, 3)], nalgebra::convert(0.0)) {", "        let params = { let mut pp = params; if @M { pp.skew += nalgebra::convert::<f64, R>(0.5); } pp };\n        if approx::relative_ne!(p[(0, 3)], nalgebra::convert(0.0)) {",
 ["p[(0, 0)].clone()", "p[(1, 1)].clone()", "p[(0, 1)].clone()", "p[(0, 2)].clone()"], [], [("p[(0, 0)].clone()", "p[(1, 1)].clone()"), ("p[(0, 2)].clone()", "p[(1, 2)].clone()")])
site("n.reject", ["C14"], "intrinsics_perspective.rs", "        Ok(params.into())\n", "        if @M { return Err(Error::InvalidInput); }\n        Ok(params.into())\n",
 ["p[(0, 0)].clone()", "p[(1, 1)].clone()", "p[(0, 1)].clone()", "p[(0, 2)].clone()"], [], [("p[(0, 0)].clone()", "p[(1, 1)].clone()")])
site("n.accept", ["C14"], "intrinsics_perspective.rs", "        if approx::relative_ne!(p[(1, 0)], nalgebra::convert(0.0)) {", "        if approx::relative_ne!(p[(1, 0)], nalgebra::convert(0.0)) && !@M {",
 ["p[(1, 0)].clone()", "p[(0, 1)].clone()", "p[(2, 2)].clone()", "p[(0, 0)].clone()"], [], [("p[(1, 0)].clone()", "p[(0, 1)].clone()"), ("p[(1, 0)].clone()", "p[(2, 1)].clone()")])
site("j.u", ["C15"], "linearize.rs", "        let ux = -p[(2, 0)].clone() * denom_sqrt.clone() * factor_u.clone()", "        let denom_sqrt = if @M { denom_sqrt * " + OFF + " } else { denom_sqrt };\n        let ux = -p[(2, 0)].clone() * denom_sqrt.clone() * factor_u.clone()",
 ["x.clone()", "z.clone()", "denom.clone()", "factor_u.clone()", "p[(0, 0)].clone()", "p[(2, 2)].clone()", "p[(2, 3)].clone()", "p[(0, 1)].clone()"], [], [("x.clone()", "y.clone()"), ("p[(0, 0)].clone()", "p[(1, 1)].clone()"), ("p[(2, 0)].clone()", "p[(2, 1)].clone()")])
site("j.new", ["C15"], "linearize.rs", "        Self { m }", "        let mut m = m; if @M { m[(1, 3)] += nalgebra::convert::<f64, R>(0.5); }\n        Self { m }",
 ["m[(0, 0)].clone()", "m[(1, 2)].clone()", "m[(2, 3)].clone()", "m[(2, 0)].clone()", "cam.intrinsics().skew()", "cam.intrinsics().cx()", "cam.extrinsics().camcenter()[2].clone()"], [], [("m[(0, 0)].clone()", "m[(1, 1)].clone()")])
site("c.w2p", ["C23"], "camera.rs", "        self.intrinsics.camera_to_pixel(&camera_frame)", "        let mut camera_frame = camera_frame; let nn = camera_frame.data.nrows(); for i in 0..nn { if @M { camera_frame.data[(i, 1)] += nalgebra::convert::<f64, R>(1e-2); } }\n        self.intrinsics.camera_to_pixel(&camera_frame)",
 ["camera_frame.data[(i, 0)].clone()", "camera_frame.data[(i, 2)].clone()", "world.data[(i, 0)].clone()", "self.extrinsics.camcenter[0].clone()", "self.extrinsics.rquat.coords[3].clone()"], [("i", "nn")], [("world.data[(i, 0)].clone()", "world.data[(i, 1)].clone()")])
site("c.p2w", ["C23"], "camera.rs", "        self.extrinsics.ray_camera_to_world(&camera)", "        let mut camera = camera; let nn = camera.data.nrows(); for i in 0..nn { if @M { camera.data[(i, 1)] += nalgebra::convert::<f64, R>(1e-2); } }\n        self.extrinsics.ray_camera_to_world(&camera)",
 ["camera.data[(i, 0)].clone()", "camera.data[(i, 2)].clone()", "pixels.data[(i, 0)].clone()", "pixels.data[(i, 1)].clone()", "self.extrinsics.camcenter[0].clone()"], [("i", "nn")], [("camera.data[(i, 0)].clone()", "camera.data[(i, 1)].clone()")])
site("s.pose", ["C18"], "extrinsics.rs", "                let camcenter = camcenter.ok_or_else(|| de::Error::missing_field(\"camcenter\"))?;", "                let mut camcenter: Point3<R2> = camcenter.ok_or_else(|| de::Error::missing_field(\"camcenter\"))?; let rquat: UnitQuaternion<R2> = rquat; { type _X = (); if @M { camcenter[0] += nalgebra::convert::<f64, R2>(0.5); } }",
 ["camcenter[0].clone()", "camcenter[2].clone()", "rquat.coords[3].clone()", "rquat.coords[0].clone()"])
site("s.intr", ["C18"], "intrinsics_perspective.rs", "                    params.ok_or_else(|| de::Error::missing_field(\"params\"))?;", "                    params.ok_or_else(|| de::Error::missing_field(\"params\"))?; let mut params = params; if @M { params.cy += nalgebra::convert::<f64, R2>(0.5); }",
 ["params.fx.clone()", "params.fy.clone()", "params.skew.clone()", "params.cx.clone()", "params.cy.clone()"])
