//! Alphabets.
fn n(v: [f64; 4]) -> Vec<f64> {
    let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    v.iter().map(|x| x / l).collect()
}
/// The 24 rotations of the cube, as quaternions (with both signs of w among them).
pub fn cube() -> Vec<Vec<f64>> {
    let mut o = vec![];
    for i in 0..4 {
        let mut q = [0.0; 4];
        q[i] = 1.0;
        o.push(n(q));
    }
    for a in [1.0, -1.0] {
        for b in [1.0, -1.0] {
            for c in [1.0, -1.0] {
                o.push(n([a * b, a, b, c]));
            }
        }
    }
    for i in 0..4 {
        for j in i + 1..4 {
            for s in [1.0, -1.0] {
                let mut q = [0.0; 4];
                q[i] = 1.0;
                q[j] = s;
                o.push(n(q));
            }
        }
    }
    o
}
pub fn rots_special() -> Vec<Vec<f64>> {
    vec![
        n([-1.0, 0.0, 0.0, 0.0]),
        // half turns about oblique axes
        n([0.0, 1.0, 2.0, 2.0]),
        n([0.0, -3.0, 1.0, 0.5]),
        // small and tiny angles, nearly half turns
        n([1.0, 1e-3, -2e-3, 5e-4]),
        n([1.0, 0.0, 1e-6, 1e-6]),
        n([1.0, 1e-9, 0.0, 0.0]),
        n([1e-6, 1.0, 0.3, -0.2]),
        n([-1e-3, 0.1, 0.2, 1.0]),
        // generic, both signs of every component
        n([0.3, 0.5, -0.7, 0.2]),
        n([-0.9, 0.1, 0.4, -0.3]),
        n([0.2, -0.8, -0.1, 0.6]),
        n([0.7, 0.7, 0.1, 0.05]),
        n([-0.4, -0.4, 0.9, 0.3]),
        n([0.6, -0.2, 0.3, -0.7]),
    ]
}
pub fn rots_all() -> Vec<Vec<f64>> {
    let mut v = cube();
    v.extend(rots_special());
    v
}
/// A spread of rotations for large products.
pub fn rots_few() -> Vec<Vec<f64>> {
    vec![
        n([1.0, 0.0, 0.0, 0.0]),
        n([0.0, 0.0, 1.0, 0.0]),
        n([1.0, 1.0, -1.0, 1.0]),
        n([1.0, 0.0, 0.0, -1.0]),
        n([0.0, 1.0, 2.0, 2.0]),
        n([0.3, 0.5, -0.7, 0.2]),
        n([-0.9, 0.1, 0.4, -0.3]),
        n([1.0, 1e-3, -2e-3, 5e-4]),
        n([-0.4, -0.4, 0.9, 0.3]),
    ]
}
pub fn rots_mid() -> Vec<Vec<f64>> {
    let mut v = rots_few();
    v.extend(cube().into_iter().step_by(3));
    v.extend(rots_special().into_iter().skip(4));
    v
}
pub fn centers() -> Vec<Vec<f64>> {
    vec![
        vec![0.0, 0.0, 0.0],
        vec![1.0, 0.0, 0.0],
        vec![0.0, -2.0, 0.0],
        vec![0.0, 0.0, 3.0],
        vec![1.2, -3.4, 5.6],
        vec![-10.0, 20.0, -7.5],
        vec![1e-3, 2e-3, -1e-3],
        vec![300.0, -1000.0, 250.0],
        vec![-0.5, -0.25, -4.0],
        vec![2.0, 2.0, 2.0],
        vec![1e5, 3e4, -2e5],
    ]
}
pub fn centers_few() -> Vec<Vec<f64>> {
    vec![
        vec![0.0, 0.0, 0.0],
        vec![0.0, 0.0, 3.0],
        vec![1.2, -3.4, 5.6],
        vec![-10.0, 20.0, -7.5],
        vec![300.0, -1000.0, 250.0],
    ]
}
/// fx fy skew cx cy
pub fn kpersp() -> Vec<Vec<f64>> {
    vec![
        vec![100.0, 100.0, 0.0, 640.0, 480.0],
        vec![1.0, 1.0, 0.0, 0.0, 0.0],
        vec![100.0, 102.0, 0.1, 321.0, 239.9],
        vec![-100.0, 90.0, 0.0, 320.0, 240.0],
        vec![80.0, -120.0, 3.0, 320.0, 240.0],
        vec![-75.0, -50.0, -2.0, -10.0, -20.0],
        vec![1200.5, 1300.25, -7.5, 0.0, 511.5],
        vec![0.5, 0.25, 0.125, 2.0, 0.0],
        vec![100.0, 101.0, 250.0, 50.0, -60.0],
        vec![1e-3, 2e-3, 0.0, 1e-3, 0.5],
        vec![5000.0, 4000.0, 1.0, 1e4, 1e4],
        vec![-1.0, 1.0, 1.0, 1.0, 1.0],
        vec![200.0, 200.0, 200.0, 200.0, 200.0],
        vec![300.0, 1.0, -0.5, 100.0, 700.0],
    ]
}
pub fn kpersp_few() -> Vec<Vec<f64>> {
    let k = kpersp();
    [0, 2, 3, 5, 6, 8].iter().map(|i| k[*i].clone()).collect()
}
/// sx sy cx cy
pub fn kortho() -> Vec<Vec<f64>> {
    vec![
        vec![100.0, 100.0, 640.0, 480.0],
        vec![1.0, 1.0, 0.0, 0.0],
        vec![100.0, 102.0, 321.0, 239.9],
        vec![-100.0, 90.0, 320.0, 240.0],
        vec![80.0, -120.0, 320.0, 0.0],
        vec![-75.0, -50.0, -10.0, -20.0],
        vec![0.5, 0.25, 2.0, -3.0],
        vec![1e-3, 2e3, 1e-3, 0.5],
        vec![5.0, 5.0, 5.0, 5.0],
        vec![1200.0, 0.01, 0.0, 700.0],
    ]
}
pub fn kortho_few() -> Vec<Vec<f64>> {
    let k = kortho();
    [0, 2, 3, 4, 5].iter().map(|i| k[*i].clone()).collect()
}
/// Camera-frame points off the principal plane: both sides, near and far.
pub fn campts() -> Vec<Vec<f64>> {
    vec![
        vec![0.0, 0.0, 1.0],
        vec![1.0, 0.0, 1.0],
        vec![0.0, 1.0, 1.0],
        vec![1.2, 3.4, 5.6],
        vec![-2.0, 0.5, 3.0],
        vec![0.3, -0.7, 2.0],
        vec![-1.0, -1.0, 10.0],
        vec![0.0, 0.0, -1.0],
        vec![1.2, 3.4, -5.6],
        vec![-0.3, 0.2, -0.75],
        vec![0.01, -0.02, 0.05],
        vec![1e-4, 1e-4, -1e-3],
        vec![100.0, -250.0, 1000.0],
        vec![-3000.0, 2000.0, -8000.0],
        vec![5.0, -3.0, 0.5],
        vec![2.0, 2.0, 2.0],
        vec![1.0, -2.0, 0.01],
        vec![0.5, 0.25, -0.02],
    ]
}
pub fn campts_few() -> Vec<Vec<f64>> {
    let k = campts();
    [0, 3, 4, 8, 9, 12, 14].iter().map(|i| k[*i].clone()).collect()
}
/// Nonzero direction vectors.
pub fn dirs() -> Vec<Vec<f64>> {
    vec![
        vec![1.0, 0.0, 0.0],
        vec![0.0, 1.0, 0.0],
        vec![0.0, 0.0, 1.0],
        vec![0.0, 0.0, -1.0],
        vec![1.0, 2.0, 2.0],
        vec![-3.0, 4.0, 0.0],
        vec![0.3, -0.2, -5.0],
        vec![1.0, 1.0, 1.0],
        vec![1e-3, -1e-3, 2e-3],
        vec![-1200.0, 340.0, 5600.0],
        vec![-0.1, -0.1, 0.7],
        vec![0.6, 0.0, -0.8],
        vec![1e-3, 0.0, 1.0],
    ]
}
/// Batch sizes: everything small, and both sides of powers of two beyond.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=130).collect();
    v.extend([191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8192, 8193, 10000, 65535, 65536, 65537]);
    v.retain(|n| *n <= max);
    v
}
/// A value generator for long batches: deterministic, spread over [-1,1], never zero.
pub fn lcg(i: usize, j: usize) -> f64 {
    let mut z = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (j as u64 + 1).wrapping_mul(0xD1B54A32D192ED03);
    z ^= z >> 31;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^= z >> 29;
    let v = ((z >> 40) as f64 + 0.5) / (1u64 << 23) as f64 - 1.0;
    // 24 bits: representable in f32
    if v == 0.0 { 0.5 } else { v }
}
