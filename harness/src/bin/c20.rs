//! C20: the alpha-trimmed mean filter returns the true trimmed mean at every pixel.
use imgproc_rs::filter;
use imgproc_rs::image::Image;
use vh::*;

/// (sum, count) of the trimmed window for every sample
fn trimmed(d: &[u8], w: usize, h: usize, c: usize, r: usize, alpha: usize) -> Vec<(u64, u64)> {
    let (ri, wi, hi) = (r as i64, w as i64, h as i64);
    let mut out = Vec::with_capacity(w * h * c);
    for y in 0..hi {
        for x in 0..wi {
            for k in 0..c {
                let mut v = Vec::with_capacity((2 * r + 1) * (2 * r + 1));
                for j in -ri..=ri {
                    let row = (y + j).clamp(0, hi - 1) * wi;
                    for i in -ri..=ri {
                        v.push(d[((row + (x + i).clamp(0, wi - 1)) as usize) * c + k]);
                    }
                }
                v.sort_unstable();
                let s = &v[alpha / 2..v.len() - alpha / 2];
                out.push((s.iter().map(|&q| q as u64).sum(), s.len() as u64));
            }
        }
    }
    out
}

fn check(t: &mut T, d: &[u8], w: usize, h: usize, c: usize, al: bool, r: usize, alpha: usize) {
    t.case(
        || format!("alpha_trimmed_mean_filter(radius={}, alpha={}) of {}x{}x{} alpha={} {:?}", r, alpha, w, h, c, al, &d[..d.len().min(48)]),
        |t| {
            let a = Image::from_slice(w as u32, h as u32, c as u8, al, d);
            t.seen(hash_bytes((w * 100000 + h) as u64, &[c as u8, al as u8, r as u8, alpha as u8, (alpha >> 8) as u8]), d);
            let o = t.imp(|| filter::alpha_trimmed_mean_filter(&a, r as u32, alpha as u32))?.map_err(|e| format!("error {:?}", e))?;
            let m = M::of(&o)?;
            same_dims(&m, &M::new(w, h, c, al))?;
            let want = trimmed(d, w, h, c, r, alpha);
            for (i, &(s, n)) in want.iter().enumerate() {
                // nearest level; either neighbour at an exact half
                let g = m.d[i] as i64;
                let dist = (2 * g * n as i64 - 2 * s as i64).unsigned_abs();
                if dist > n {
                    return Err(format!("sample (x={}, y={}, c={}) is {} but the trimmed mean is {}/{} = {:.3}", i / c % w, i / c / w, i % c, g, s, n, s as f64 / n as f64));
                }
            }
            if a.data() != d {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}
/// (sum, count) of the trimmed window for every sample of a one-channel image over {lo, lo + 1},
/// by a summed-area table of the padded image
fn trimmed_two(d: &[u8], w: usize, h: usize, lo: u8, r: usize, alpha: usize) -> Vec<(u64, u64)> {
    let (pw, ph, s) = (w + 2 * r, h + 2 * r, 2 * r + 1);
    let mut t = vec![0u64; (pw + 1) * (ph + 1)];
    for y in 0..ph {
        for x in 0..pw {
            let v = d[y.saturating_sub(r).min(h - 1) * w + x.saturating_sub(r).min(w - 1)] - lo;
            t[(y + 1) * (pw + 1) + x + 1] = v as u64 + t[y * (pw + 1) + x + 1] + t[(y + 1) * (pw + 1) + x] - t[y * (pw + 1) + x];
        }
    }
    let (n, half) = ((s * s) as u64, alpha as u64 / 2);
    (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            let ones = t[(y + s) * (pw + 1) + x + s] + t[y * (pw + 1) + x] - t[y * (pw + 1) + x + s] - t[(y + s) * (pw + 1) + x];
            let left = n - 2 * half;
            // the largest `half` values and then the smallest are removed
            let ones = ones.saturating_sub(half).min(left);
            (left * lo as u64 + ones, left)
        })
        .collect()
}

/// windows of so many samples that neighbouring means differ by less than a float step
fn check_fine(t: &mut T, r: usize, lo: u8, extra: i64, alpha: usize) {
    let s = 2 * r + 1;
    let ones = ((s * s) as i64 / 2 + extra) as usize;
    t.case(
        || format!("alpha_trimmed_mean_filter(radius={}, alpha={}) of a {}x{} image of {} samples {} and the rest {}", r, alpha, s, s, ones, lo + 1, lo),
        |t| {
            // the raised samples are spread evenly, so every window is near one half
            let d: Vec<u8> = (0..s * s).map(|i| lo + ((i + 1) * ones / (s * s) - i * ones / (s * s)) as u8).collect();
            let a = Image::from_slice(s as u32, s as u32, 1, false, &d);
            t.seen(hash_bytes(lo as u64, &[extra as u8, r as u8, alpha as u8, (alpha >> 8) as u8]), &d);
            let o = t.imp(|| filter::alpha_trimmed_mean_filter(&a, r as u32, alpha as u32))?.map_err(|e| format!("error {:?}", e))?;
            for (i, &(sum, n)) in trimmed_two(&d, s, s, lo, r, alpha).iter().enumerate() {
                let g = o.data()[i] as i64;
                if (2 * g * n as i64 - 2 * sum as i64).unsigned_abs() > n {
                    return Err(format!("sample (x={}, y={}) is {} but the trimmed mean is {}/{} = {:.9}", i % s, i / s, g, sum, n, sum as f64 / n as f64));
                }
            }
            Ok(())
        },
    );
}
fn mixed(n: usize, salt: usize, kind: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let v = mix_u8(i, salt);
            match kind {
                0 => v,
                1 => [0u8, 255][v as usize & 1],
                2 => [0u8, 1, 254, 255][v as usize & 3],
                3 => 100 + (v & 7),
                _ => ((i * 7) & 255) as u8,
            }
        })
        .collect()
}
fn alphas(r: usize) -> Vec<usize> {
    (0..(2 * r + 1) * (2 * r + 1)).step_by(2).collect()
}

fn main() {
    let e = Engine::new("C20");
    let mut shp: Vec<(usize, usize)> = vec![(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (1, 8), (8, 1), (4, 2), (2, 4)];
    if e.thorough() {
        shp.extend([(4, 3), (3, 4), (6, 2), (2, 6), (12, 1), (1, 12)]);
    }
    e.par("binary", &format!("all 2^n images over {{0, 255}} of {} shapes x radii 0..=2 x every even alpha", shp.len()), shp.len() * 3, |t, i| {
        let (w, h) = shp[i / 3];
        let r = i % 3;
        for k in 0..pow(2, w * h) {
            let d = word(k, w * h, &[0, 255]);
            for a in alphas(r) {
                check(t, &d, w, h, 1, false, r, a);
            }
        }
    });
    e.par("ternary", "all 3^n images over {0, 100, 255} of shapes 3x3, 1x6, 6x1, 2x3 x radius 1 x every even alpha", 4, |t, i| {
        let (w, h) = [(3usize, 3usize), (1, 6), (6, 1), (2, 3)][i];
        let lim = pow(3, w * h);
        for k in 0..lim {
            let d = word(k, w * h, &[0, 100, 255]);
            for a in alphas(1) {
                check(t, &d, w, h, 1, false, 1, a);
            }
        }
    });
    let wmax = e.b(40usize, 70);
    let hs: Vec<usize> = e.b(vec![1, 2, 4, 9], (1..=12).collect());
    e.par("widths", &format!("all widths 1..={} x {} heights x radii 0..=8 x alphas (all for radius <= 2, a spread beyond)", wmax, hs.len()), wmax, |t, i| {
        let w = i + 1;
        for &h in &hs {
            for r in 0..=8usize {
                let (c, al) = LAYOUTS4[(w + h + r) % 4];
                let n = (2 * r + 1) * (2 * r + 1);
                let v: Vec<usize> = if r <= 1 { alphas(r) } else { vec![0, 2, (n / 2) & !1, n - 1] };
                for a in v {
                    check(t, &mixed(w * h * c, r + a, (r + a / 2) % 4), w, h, c, al, r, a);
                }
            }
        }
    });
    e.par("heights", &format!("all heights 1..={} x widths 1, 4, 9 x radii 0..=6 x 4 alphas", wmax), wmax, |t, i| {
        let h = i + 1;
        for w in [1usize, 4, 9] {
            for r in 0..=6usize {
                let (c, al) = LAYOUTS[(w + h + r) % 7];
                let n = (2 * r + 1) * (2 * r + 1);
                for a in [0, 2.min(n - 1), (n / 3) & !1, n - 1] {
                    check(t, &mixed(w * h * c, r + a, (r + a / 2) % 5), w, h, c, al, r, a);
                }
            }
        }
    });
    e.par("all alphas", "radii 0..=4 x every even alpha x 7 layouts x 4 contents on 6x5", 7 * 5, |t, i| {
        let (c, al) = LAYOUTS[i % 7];
        let r = i / 7;
        for a in alphas(r) {
            for k in 0..4 {
                check(t, &mixed(30 * c, a + k, k), 6, 5, c, al, r, a);
            }
        }
    });
    // every multiset a window can hold over 5 values, below every other: rank selection from every earlier state
    let sets: Vec<Vec<u8>> = {
        let al = [0u8, 50, 120, 240, 255];
        let mut v = Vec::new();
        for k in 0..pow(5, 9) {
            let s = word(k, 9, &al);
            if s.windows(2).all(|p| p[0] <= p[1]) {
                v.push(s);
            }
        }
        v
    };
    e.par("multisets", "3x6 images: every multiset of 9 samples over {0, 50, 120, 240, 255} in the lower half below 6 (all 715) spread over the multisets in the upper half, radius 1, every even alpha", sets.len(), |t, i| {
        let step = e.b(40, 1);
        for j in (i % step..sets.len()).step_by(step) {
            let mut d = sets[j].clone();
            d.extend((0..9).map(|p| sets[i][p * 4 % 9]));
            for alpha in [0, 2, 4, 6, 8] {
                check(t, &d, 3, 6, 1, false, 1, alpha);
            }
        }
    });
    e.par("values", "constant images of every value and columns of all value pairs, radii 0..=1, all alphas", 256, |t, i| {
        for r in 0..=2 {
            for a in alphas(r) {
                check(t, &[i as u8; 12], 4, 3, 1, false, r, a);
            }
        }
        for v in 0..256usize {
            check(t, &[i as u8, v as u8, v as u8, i as u8], 1, 4, 1, false, 1, [0, 2, 4, 6, 8][v % 5]);
        }
    });
    e.par("many channels", "5..=9 and 16 channels x 8 shapes x radii 0..=3 x 4 alphas x 3 contents", 14, |t, i| {
        let (c, al) = if i < 12 { LAYOUTS_W[i % 6] } else { (16, i % 2 == 0) };
        for (w, h) in [(1usize, 1usize), (2, 3), (5, 4), (11, 3), (3, 12), (1, 20), (20, 1), (9, 7)] {
            for r in 0..=3usize {
                let n = (2 * r + 1) * (2 * r + 1);
                for a in [0, 2.min(n - 1), (n / 2) & !1, n - 1] {
                    for k in [0, 1, 4] {
                        check(t, &mixed(w * h * c, a + k + i, k), w, h, c, al, r, a);
                    }
                }
            }
        }
    });
    e.par("wide stripes", "radii 20, 40, 60, 63, 64, 66 and 100 x 4 alphas on images of 1 to 3 rows or columns wider than a stripe of columns", 7, |t, i| {
        let r = [20, 40, 60, 63, 64, 66, 100][i];
        let n = (2 * r + 1) * (2 * r + 1);
        for (w, h) in [(90usize, 2usize), (2, 90), (140, 1), (1, 140), (67, 3)] {
            for a in [0, 2, (n / 2) & !1, n - 1] {
                check(t, &mixed(w * h, r, i % 3), w, h, 1, false, r, a);
            }
        }
    });
    e.par("large radii", "radii 9..=30 and 60 on small images x 4 alphas", 23, |t, i| {
        let r = if i < 22 { 9 + i } else { 60 };
        let n = (2 * r + 1) * (2 * r + 1);
        for (w, h) in [(1usize, 1usize), (3, 2), (2, 7), (7, 7)] {
            for a in [0, 2, (n / 2) & !1, n - 1] {
                check(t, &mixed(w * h, r, 0), w, h, 1, false, r, a);
            }
        }
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image, radius 1, and 2 for the first, alphas 0, 4 and the largest", 9, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001), (1101, 1003)][i % 3];
        let r = [1, 1, 2][i % 3];
        check(t, &mixed(w * h, 3, i), w, h, 1, false, r, [0, 4, 4 * r * (r + 1)][i / 3]);
    });
    let fr = e.b(vec![20usize, 128, 130], vec![20usize, 64, 100, 127, 128, 129, 130, 150, 181, 200]);
    e.par("fine means", &format!("two-valued images of the window's own size whose means lie next to a half: radii {:?} x 5 levels x one sample more or less x alphas 0, 2, 256", fr), fr.len() * 5, |t, i| {
        let lo = [0u8, 3, 127, 128, 254][i % 5];
        for extra in [-1i64, 0, 1, 2] {
            for alpha in [0usize, 2, 256] {
                check_fine(t, fr[i / 5], lo, extra, alpha);
            }
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (20000, 1), (1, 20000)];
    e.par("large", "6 large shapes x radii 0, 1, 2, 4, layouts in turn", big.len() * 4, |t, i| {
        let (w, h) = big[i % big.len()];
        let r = [0usize, 1, 2, 4][i / big.len()];
        let (c, al) = LAYOUTS4[i % 4];
        let n = (2 * r + 1) * (2 * r + 1);
        check(t, &mixed(w * h * c, 3, 0), w, h, c, al, r, 0);
        check(t, &mixed(w * h * c, 3, 0), w, h, c, al, r, (n / 2) & !1);
    });
    let rm = 6u32;
    e.par("reject", "radii 0..=6 x every alpha 0..=window + 8 and far values", rm as usize + 1, |t, i| {
        let r = i as u32;
        let n = (2 * r + 1) * (2 * r + 1);
        let img = Image::from_slice(3, 2, 1, false, &[9u8, 4, 200, 1, 0, 255]);
        for a in (0..=n + 8).chain([1000, 1001, 65535, 65536, u32::MAX - 1, u32::MAX]) {
            t.case(
                || format!("radius {} alpha {}", r, a),
                |t| {
                    t.seen(r as u64, &a.to_le_bytes());
                    let ok = a % 2 == 0 && a < n;
                    let g = t.imp(|| filter::alpha_trimmed_mean_filter(&img, r, a))?;
                    if g.is_ok() != ok {
                        return Err(format!("returned {}", if g.is_ok() { "Ok" } else { "Err" }));
                    }
                    Ok(())
                },
            );
        }
    });
    e.finish();
}
