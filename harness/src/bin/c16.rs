//! C16: linear filters compute the correlation with the given kernel, edges repeated.
use imgproc_rs::filter;
use vh::*;

/// correlation with a kw x kh kernel (row major, f64)
fn correlate(m: &M, k: &[f64], kw: usize, kh: usize) -> M {
    let (rx, ry) = (kw as i64 / 2, kh as i64 / 2);
    M::gen(m.w, m.h, m.c, m.alpha, |x, y, c| {
        let mut s = 0.0;
        for j in 0..kh {
            for i in 0..kw {
                let wt = k[j * kw + i];
                if wt != 0.0 {
                    s += wt * m.cl(x as i64 + i as i64 - rx, y as i64 + j as i64 - ry, c);
                }
            }
        }
        s
    })
}
fn d(k: &[f32]) -> Vec<f64> {
    k.iter().map(|&v| v as f64).collect()
}
/// rounding allowance: relative to sum |k| * max |sample|
fn tol(m: &M, k: &[f64], rel: f64) -> f64 {
    let a: f64 = k.iter().map(|v| v.abs()).sum();
    let b = m.d.iter().fold(0.0f64, |s, v| s.max(v.abs()));
    a * b * rel + (a * b * 1e-3).min(1e-6).min(a * b * rel) + 1e-36
}

fn one_d(t: &mut T, m: &M, k: &[f32]) {
    t.case(
        || format!("filter_1d of {}x{}x{} alpha={} with {:?}", m.w, m.h, m.c, m.alpha, k),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, &[m.c as u8]), k);
            let kd = d(k);
            for vert in [true, false] {
                let r = t.imp(|| filter::filter_1d(&a, k, vert))?.map_err(|e| format!("vertical={}: error {:?}", vert, e))?;
                let want = if vert { correlate(m, &kd, 1, k.len()) } else { correlate(m, &kd, k.len(), 1) };
                img_close(&r, &want, tol(m, &kd, 2e-6), 0.0).map_err(|e| format!("vertical={}: {}", vert, e))?;
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}
fn two_d(t: &mut T, m: &M, k: &[f32]) {
    t.case(
        || format!("unseparable/linear filter of {}x{}x{} alpha={} with {:?}", m.w, m.h, m.c, m.alpha, k),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, &[m.c as u8]), k);
            let n = (k.len() as f64).sqrt().round() as usize;
            let kd = d(k);
            let want = correlate(m, &kd, n, n);
            let r = t.imp(|| filter::unseparable_filter(&a, k))?.map_err(|e| format!("unseparable_filter: error {:?}", e))?;
            img_close(&r, &want, tol(m, &kd, (kd.len() as f64 * 6e-8).max(2e-6)), 0.0).map_err(|e| format!("unseparable_filter: {}", e))?;
            let r = t.imp(|| filter::linear_filter(&a, k))?.map_err(|e| format!("linear_filter: error {:?}", e))?;
            img_close(&r, &want, tol(m, &kd, 2e-5), 0.0).map_err(|e| format!("linear_filter: {}", e))?;
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}
fn sep(t: &mut T, m: &M, v: &[f32], h: &[f32], lin: bool) {
    t.case(
        || format!("separable filter of {}x{}x{} alpha={} with vertical {:?} horizontal {:?}", m.w, m.h, m.c, m.alpha, v, h),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, &[m.c as u8]), &[v, h].concat());
            let n = v.len();
            let outer: Vec<f32> = (0..n * n).map(|i| v[i / n] * h[i % n]).collect();
            let od: Vec<f64> = (0..n * n).map(|i| v[i / n] as f64 * h[i % n] as f64).collect();
            let want = correlate(m, &od, n, n);
            let r = t.imp(|| filter::separable_filter(&a, v, h))?.map_err(|e| format!("separable_filter: error {:?}", e))?;
            img_close(&r, &want, tol(m, &od, 4e-6), 0.0).map_err(|e| format!("separable_filter: {}", e))?;
            if lin {
                let r = t.imp(|| filter::linear_filter(&a, &outer))?.map_err(|e| format!("linear_filter: error {:?}", e))?;
                img_close(&r, &want, tol(m, &od, 2e-5), 0.0).map_err(|e| format!("linear_filter of the outer product: {}", e))?;
            }
            Ok(())
        },
    );
}
fn dense(n: usize, salt: usize) -> Vec<f32> {
    (0..n).map(|i| (mix_u8(i, salt) as f32 - 100.0) / 64.0).collect()
}

fn main() {
    let e = Engine::new("C16");
    let smax = e.b(6usize, 9);
    let sh = shapes(smax, smax);
    let kmax = e.b(7usize, 11);
    e.par("unit kernels", &format!("every unit kernel of sizes 1..={} (1-D and 2-D) and a dense kernel per size, all shapes up to {}x{}, layouts in turn", kmax, smax, smax), sh.len(), |t, i| {
        let (w, h) = sh[i];
        let mut n = 1;
        while n <= kmax {
            let (c, alpha) = LAYOUTS[(i + n) % 7];
            let m = mix_img(w, h, c, alpha, 1);
            for p in 0..n {
                let mut k = vec![0.0f32; n];
                k[p] = 1.0;
                one_d(t, &m, &k);
            }
            for s in 0..3 {
                one_d(t, &m, &dense(n, s));
                sep(t, &m, &dense(n, s), &dense(n, s + 7), true);
                two_d(t, &m, &dense(n * n, s));
            }
            for p in 0..n * n {
                let mut k = vec![0.0f32; n * n];
                k[p] = 1.0;
                two_d(t, &m, &k);
            }
            n += 2;
        }
    });
    e.par("layouts", "all 7 layouts x shapes up to 5x5 x dense kernels of sizes 1, 3, 5", 7 * 25, |t, i| {
        let (c, alpha) = LAYOUTS[i % 7];
        let (w, h) = shapes(5, 5)[i / 7];
        let m = mix_img(w, h, c, alpha, 2);
        for n in [1usize, 3, 5] {
            one_d(t, &m, &dense(n, 3));
            two_d(t, &m, &dense(n * n, 4));
            sep(t, &m, &dense(n, 5), &dense(n, 6), true);
        }
    });
    // every small-integer 3x3 kernel: exercises every decision of the automatic separation
    let letters = e.b(3usize, 4);
    let al: Vec<f32> = [0.0, 1.0, -1.0, 2.0][..letters].to_vec();
    let total = pow(letters, 9);
    e.par("all 3x3 kernels", &format!("all {}^9 3x3 kernels over {:?} on a 4x3 image", letters, al), (total + 255) / 256, |t, i| {
        let m = mix_img(4, 3, 2, true, 3);
        for j in i * 256..((i + 1) * 256).min(total) {
            let mut q = j;
            let k: Vec<f32> = (0..9)
                .map(|_| {
                    let v = al[q % letters];
                    q /= letters;
                    v
                })
                .collect();
            two_d(t, &m, &k);
        }
    });
    e.par("all 3x3 outer products", "all pairs of 3-vectors over {-2..2} on a 4x4 image (separable and automatic)", 125, |t, i| {
        let m = mix_img(4, 4, 1, false, 4);
        let vec3 = |i: usize| [(i % 5) as f32 - 2.0, (i / 5 % 5) as f32 - 2.0, (i / 25) as f32 - 2.0];
        for j in 0..125 {
            sep(t, &m, &vec3(i), &vec3(j), true);
        }
    });
    let st = [1usize, 3, 5, 7, 9, 11, 15];
    e.par("structured kernels", "kernels of sizes 1..15 with structure an implementation could special-case (constant, zero, one row, one column, equal rows, equal columns, triangular, diagonal, checkerboard, symmetric, antisymmetric, sparse, 0/1, normalised, with subnormal and huge entries) x 4 amplitudes x 4 shapes, 13 layouts in turn, through the direct and the automatic form", st.len() * 18, |t, i| {
        let (n, kind) = (st[i / 18], i % 18);
        let v = dense(n, 21);
        for (q, amp) in [1.0f32, -0.37, 1.0 / (n * n) as f32, 300.0].into_iter().enumerate() {
            let k: Vec<f32> = (0..n * n)
                .map(|p| {
                    let (x, y) = (p % n, p / n);
                    let r = n / 2;
                    amp * match kind {
                        0 => 1.0,
                        1 => 0.0,
                        2 => (y == r) as u8 as f32 * v[x],
                        3 => (x == r) as u8 as f32 * v[y],
                        4 => v[x],
                        5 => v[y],
                        6 => (x >= y) as u8 as f32,
                        7 => (x == y) as u8 as f32,
                        8 => if (x + y) % 2 == 0 { 1.0 } else { -1.0 },
                        9 => v[x.min(n - 1 - x)] + v[y.min(n - 1 - y)],
                        10 => x as f32 - y as f32,
                        11 => (p % 7 == 3) as u8 as f32 * v[x],
                        12 => (mix_u8(p, 5) & 1) as f32,
                        13 => if p == n * n - 1 { 2.0 } else { 1.0 },
                        14 => if p == 0 { 2.0 } else { 1.0 },
                        15 => if p == n * n / 2 { 2.0 } else { 1.0 },
                        16 => if p % 5 == 2 { 1e-40 } else { v[x] - v[y] },
                        _ => if y == 0 || y == n - 1 { 1.0 } else { 0.0 },
                    }
                })
                .collect();
            for (s, &(w, h)) in [(1usize, 1usize), (4, 3), (n + 2, n + 3), (2, 17)].iter().enumerate() {
                let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
                let (c, alpha) = lay[(i + q * 4 + s) % 13];
                two_d(t, &mix_img(w, h, c, alpha, kind), &k);
            }
        }
    });
    e.par("nearly separable", "outer products of sizes 3, 5, 7, 9 with one entry changed by 1/2 .. 2^-20, every entry", 4, |t, i| {
        let n = [3usize, 5, 7, 9][i];
        let m = mix_img(n + 2, n + 1, 1, false, 5);
        let (v, h) = (dense(n, 11), dense(n, 12));
        for p in 0..n * n {
            for b in (1..21).filter(|b| n < 9 || b % 4 == 2) {
                let mut k: Vec<f32> = (0..n * n).map(|q| v[q / n] * h[q % n]).collect();
                k[p] += 0.5f32.powi(b);
                two_d(t, &m, &k);
                let mut k = vec![1.0f32; n * n];
                k[p] += 0.5f32.powi(b);
                two_d(t, &m, &k);
            }
        }
    });
    e.par("faint entries", "sizes 3, 5, 7, 9: one entry 1 (centre, every corner, edge middles) and every entry off its row and column 2^-1 .. 2^-23, with and without the row and column", 4, |t, i| {
        let n = [3usize, 5, 7, 9][i];
        let m = mix_img(n + 2, n + 1, 1, false, 5);
        for b in 1..24 {
            for (r, c) in [(n / 2, n / 2), (0, 0), (0, n - 1), (n - 1, 0), (n - 1, n - 1), (0, n / 2), (n / 2, n - 1)] {
                for cross in [0.0f32, 0.25] {
                    if n == 9 && (b as usize + r + c) % 3 != 0 {
                        continue;
                    }
                    let k: Vec<f32> = (0..n * n)
                        .map(|q| match (q / n == r, q % n == c) {
                            (true, true) => 1.0,
                            (false, false) => 0.5f32.powi(b) + cross * cross,
                            _ => cross,
                        })
                        .collect();
                    two_d(t, &m, &k);
                }
            }
        }
    });
    let rows = e.b(90usize, 300);
    e.par("sizes", &format!("rows and columns of 1..={} pixels x kernels of sizes 1, 3, 5, 9, 15, layouts in turn", rows), rows, |t, i| {
        let n = i + 1;
        let (c, alpha) = LAYOUTS[i % 7];
        for (w, h) in [(n, 1), (1, n), (n, 2), (3, n)] {
            let m = mix_img(w, h, c, alpha, 6);
            for k in [1usize, 3, 5, 9, 15] {
                one_d(t, &m, &dense(k, 8));
                sep(t, &m, &dense(k, 9), &dense(k, 10), k <= 5);
            }
            two_d(t, &m, &dense(9, 13));
            two_d(t, &m, &dense(25, 13));
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (40000, 1), (1, 40000), (300, 200)];
    e.par("large", "large images x kernels, layouts in turn", big.len() * 2, |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = LAYOUTS4[(i + i / big.len()) % 4];
        let m = mix_img(w, h, c, alpha, 7);
        one_d(t, &m, &dense(5, 14));
        sep(t, &m, &dense(3, 15), &dense(3, 16), true);
        two_d(t, &m, &dense(9, 17));
        two_d(t, &m, &dense(25, 18));
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image x 1-D, separable and 2-D kernels of size 3", 6, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001)][i % 2];
        let m = mix_img(w, h, 1, false, 7);
        match i / 2 {
            0 => one_d(t, &m, &dense(3, 14)),
            1 => sep(t, &m, &dense(3, 15), &dense(3, 16), true),
            _ => two_d(t, &m, &dense(9, 17)),
        }
    });
    let wide: Vec<usize> = (4..=e.b(16usize, 40)).map(|k| 2 * k + 1).chain([99, 101, 129, 257]).collect();
    e.par("wide kernels", &format!("every odd kernel size 9..={}, 99, 101, 129 and 257 (1-D, separable, 2-D; the kernel wider and narrower than the image) x 4 shapes, all weights distinct, symmetric and equal vectors", wide[wide.len() - 5]), wide.len() * 4, |t, i| {
        let n = wide[i % wide.len()];
        let (w, h) = if n > 90 { [(7usize, 6usize), (9, 2), (1, 12), (3, 3)] } else { [(7usize, 6usize), (n + 4, 5), (4, n + 3), (n + 1, n + 2)] }[i / wide.len()];
        let (c, alpha) = LAYOUTS4[i % 4];
        let m = mix_img(w, h, c, alpha, 9);
        let sc = 1.0 / n as f32;
        let k = |s: usize, l: usize| dense(l, s).iter().map(|v| v * sc).collect::<Vec<f32>>();
        let sym: Vec<f32> = (0..n).map(|q| 1.0 / (1.0 + (q as f32 - (n / 2) as f32).abs())).collect();
        one_d(t, &m, &k(30, n));
        one_d(t, &m, &sym);
        sep(t, &m, &k(31, n), &k(32, n), true);
        sep(t, &m, &k(33, n), &k(33, n), true);
        sep(t, &m, &sym, &sym, true);
        sep(t, &m, &sym, &k(34, n), true);
        if n <= e.b(21, 41) {
            two_d(t, &m, &k(35, n * n));
        }
    });
    e.par("values", "samples beyond 8 bits, negative and fractional; kernels with large and tiny weights", 4, |t, i| {
        let m = match i {
            0 => mix_img(5, 4, 3, false, 8).map(|v| v - 128.0),
            1 => mix_img(5, 4, 3, false, 8).map(|v| v * 1024.0),
            2 => mix_img(5, 4, 4, true, 8).map(|v| (v / 256.0) as f32 as f64),
            _ => mix_img(5, 4, 1, false, 8).map(|v| ((v - 100.0) * 1e6) as f32 as f64),
        };
        for s in [1e-4f32, 1.0, 1e4] {
            for n in [3usize, 5] {
                let sc = |k: Vec<f32>| k.iter().map(|v| v * s).collect::<Vec<f32>>();
                one_d(t, &m, &sc(dense(n, 20)));
                two_d(t, &m, &sc(dense(n * n, 21)));
                sep(t, &m, &sc(dense(n, 22)), &dense(n, 23), true);
            }
        }
    });
    e.par("scaled kernels", "kernels of sizes 1, 3, 5, 7 with all weights scaled by 2^k, k in -60..=60 step 4, samples scaled by 2^-k, 1 and 2^(-k/2): relative accuracy; one weight of relative size 2^-24 to 2^-10 alone meeting a sample that is larger by as much", 31, |t, i| {
        let k = i as i32 * 4 - 60;
        let s = 2f32.powi(k);
        for (q, back) in [-k, 0, -k / 2].into_iter().enumerate() {
            let (c, alpha) = LAYOUTS[(i + q) % 7];
            let m = mix_img(5, 4, c, alpha, 8).map(|v| v * 2f64.powi(back));
            for n in [1usize, 3, 5, 7] {
                let sc = |k: Vec<f32>| k.iter().map(|v| v * s).collect::<Vec<f32>>();
                one_d(t, &m, &sc(dense(n, 20)));
                two_d(t, &m, &sc(dense(n * n, 21)));
                sep(t, &m, &sc(dense(n, 22)), &dense(n, 23), true);
                sep(t, &m, &dense(n, 24), &sc(dense(n, 25)), true);
            }
        }
        // a small weight must not be dropped: its sample is as much larger
        let small = 2f32.powi(-(10 + i as i32 / 2));
        for p in 0..9usize {
            let mut k9 = dense(9, 26);
            k9[p] = small;
            let mut m = mix_img(5, 5, 1, false, 9);
            m.d[12] = (100.0 / small) as f64;
            two_d(t, &m, &k9);
            let mut k3 = dense(3, 27);
            k3[p % 3] = small;
            one_d(t, &m, &k3);
        }
    });
    let lmax = e.b(450usize, 1100);
    e.par("reject", &format!("all kernel lengths 0..={} for the 1-D and 2-D forms; all length pairs up to 12 for the separable form", lmax), lmax + 1, |t, n| {
        let m = mix_img(3, 2, 1, false, 1);
        t.case(
            || format!("kernel length {}", n),
            |t| {
                let a = m.f32();
                t.seen(n as u64, &[1]);
                let k = dense(n, 1);
                let odd = n % 2 == 1;
                let q = (n as f64).sqrt().round() as usize;
                let sq = odd && q * q == n;
                for vert in [true, false] {
                    let r = t.imp(|| filter::filter_1d(&a, &k, vert))?;
                    if r.is_ok() != odd {
                        return Err(format!("filter_1d returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                    }
                }
                let r = t.imp(|| filter::unseparable_filter(&a, &k))?;
                if r.is_ok() != sq {
                    return Err(format!("unseparable_filter returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                }
                let r = t.imp(|| filter::linear_filter(&a, &k))?;
                if r.is_ok() != sq {
                    return Err(format!("linear_filter returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                }
                for v in 0..=12usize {
                    if n <= 12 {
                        let r = t.imp(|| filter::separable_filter(&a, &k, &dense(v, 2)))?;
                        if r.is_ok() != (odd && v == n) {
                            return Err(format!("separable_filter with lengths {} and {} returned {}", n, v, if r.is_ok() { "Ok" } else { "Err" }));
                        }
                    }
                }
                Ok(())
            },
        );
    });
    e.par("real contents", &format!("{} classes of floating-point contents (signed, fractional, large, tiny) x shapes up to 4x4 and 2 larger x kernels of sizes 1, 3, 5, 9, 13 layouts (up to 9 channels) in turn", REALS), REALS * 18, |t, i| {
        let sh = shapes(4, 4);
        let n = i / REALS;
        let (w, h) = if n < sh.len() { sh[n] } else { [(19, 11), (2, 70)][n - sh.len()] };
        let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
        for (q, k) in [1usize, 3, 5, 9].into_iter().enumerate() {
            for s in 0..3 {
                let (c, alpha) = lay[(n + i + q + s * 5) % 13];
                let m = real_img(w, h, c, alpha, i % REALS, n + s);
                one_d(t, &m, &dense(k, s));
                sep(t, &m, &dense(k, s), &dense(k, s + 7), true);
                two_d(t, &m, &dense(k * k, s));
            }
        }
    });
    e.finish();
}
