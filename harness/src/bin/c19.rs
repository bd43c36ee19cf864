//! C19: the median filter returns the true median at every pixel.
use imgproc_rs::filter;
use imgproc_rs::image::Image;
use vh::*;

/// window samples by plain enumeration, k-th smallest by counting
fn median(d: &[u8], w: usize, h: usize, c: usize, r: usize) -> Vec<u8> {
    let (ri, wi, hi) = (r as i64, w as i64, h as i64);
    let mut out = vec![0u8; w * h * c];
    let half = ((2 * r + 1) * (2 * r + 1) / 2 + 1) as u32;
    for y in 0..hi {
        for x in 0..wi {
            for k in 0..c {
                let mut cnt = [0u32; 256];
                for j in -ri..=ri {
                    let row = (y + j).clamp(0, hi - 1) * wi;
                    for i in -ri..=ri {
                        cnt[d[((row + (x + i).clamp(0, wi - 1)) as usize) * c + k] as usize] += 1;
                    }
                }
                let mut s = 0;
                let mut v = 0;
                for q in 0..256 {
                    s += cnt[q];
                    if s >= half {
                        v = q;
                        break;
                    }
                }
                out[((y * wi + x) as usize) * c + k] = v as u8;
            }
        }
    }
    out
}

fn check(t: &mut T, d: &[u8], w: usize, h: usize, c: usize, alpha: bool, r: usize) {
    t.case(
        || format!("median_filter(radius={}) of {}x{}x{} alpha={} {:?}", r, w, h, c, alpha, &d[..d.len().min(48)]),
        |t| {
            let a = Image::from_slice(w as u32, h as u32, c as u8, alpha, d);
            t.seen(hash_bytes((w * 100000 + h) as u64, &[c as u8, alpha as u8, r as u8]), d);
            let o = t.imp(|| filter::median_filter(&a, r as u32))?.map_err(|e| format!("error {:?}", e))?;
            img_eq_u8(&o, w, h, c, alpha, &median(d, w, h, c, r))?;
            if a.data() != d {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}
fn mixed(n: usize, salt: usize, kind: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let v = mix_u8(i, salt);
            match kind {
                0 => v,
                1 => [0u8, 255][v as usize & 1],
                2 => [0u8, 1, 254, 255][v as usize & 3],
                3 => 100 + (v & 7),
                _ => ((i * 7) & 255) as u8,
            }
        })
        .collect()
}

fn main() {
    let e = Engine::new("C19");
    // 0-1 images: every threshold behaviour of every window
    let mut shp: Vec<(usize, usize)> = vec![(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (4, 3), (3, 4), (6, 2), (2, 6), (12, 1), (1, 12)];
    if e.thorough() {
        shp.extend([(4, 4), (7, 2), (2, 7), (5, 3), (3, 5), (16, 1), (1, 16), (8, 2), (2, 8)]);
    }
    e.par("binary", &format!("all 2^n images over {{0, 255}} (and {{3, 4}}) of {} shapes x radii 0..=3", shp.len()), shp.len() * 8, |t, i| {
        let (w, h) = shp[i / 8];
        let r = i % 4;
        let al = if i % 8 < 4 { [0u8, 255] } else { [3, 4] };
        for k in 0..pow(2, w * h) {
            check(t, &word(k, w * h, &al), w, h, 1, false, r);
        }
    });
    let cols = e.b(7usize, 9);
    e.par("pivot walks", &format!("all columns of {} samples over {{0, 1, 2, 254, 255}} (every up/down walk of the running median), radii 0..=1, and as rows", cols), 5 * 5, |t, i| {
        let al = [0u8, 1, 2, 254, 255];
        let n = cols - 2;
        for k in 0..pow(5, n) {
            let mut d = vec![al[i % 5], al[i / 5]];
            d.extend(word(k, n, &al));
            check(t, &d, 1, cols, 1, false, 0);
            check(t, &d, 1, cols, 1, false, 1);
            if k % 7 == 0 {
                check(t, &d, cols, 1, 1, false, 1);
            }
        }
    });
    e.par("ternary", "all 3^n images over {0, 7, 255} of shapes 3x3, 2x4, 4x2 x radii 0..=2", 9, |t, i| {
        let (w, h) = [(3usize, 3usize), (2, 4), (4, 2)][i / 3];
        for k in 0..pow(3, w * h) {
            check(t, &word(k, w * h, &[0, 7, 255]), w, h, 1, false, i % 3);
        }
    });
    // every multiset a window can hold over 5 values, below every other: rank selection from every earlier state
    let sets: Vec<Vec<u8>> = {
        let al = [0u8, 50, 120, 240, 255];
        let mut v = Vec::new();
        for k in 0..pow(5, 9) {
            let s = word(k, 9, &al);
            if s.windows(2).all(|p| p[0] <= p[1]) {
                v.push(s);
            }
        }
        v
    };
    e.par("multisets", "3x6 images: every multiset of 9 samples over {0, 50, 120, 240, 255} in the lower half below 24 (all 715) spread over the multisets in the upper half, radius 1; single windows of 5x5 with the 25 samples in every split over {0, 120, 255}", sets.len(), |t, i| {
        let step = e.b(6, 1);
        for j in (i % step..sets.len()).step_by(step) {
            let mut d = sets[j].clone();
            // the order inside the window is not sorted
            d.extend((0..9).map(|p| sets[i][p * 4 % 9]));
            check(t, &d, 3, 6, 1, false, 1);
        }
        if i < 26 {
            for j in 0..=25 - i {
                let d: Vec<u8> = (0..25).map(|p| p * 7 % 25).map(|p| if p < i { 0 } else if p < i + j { 120 } else { 255 }).collect();
                check(t, &d, 5, 5, 1, false, 2);
            }
        }
    });
    e.par("values", "all pairs of values stacked in columns and rows (every pivot jump)", 256, |t, i| {
        for v in 0..256usize {
            let d = [i as u8, v as u8, i as u8, v as u8, v as u8];
            check(t, &d, 1, 5, 1, false, 0);
            check(t, &d, 1, 5, 1, false, 1);
            check(t, &d, 5, 1, 1, false, 1);
        }
    });
    // every width / height around the column-block size
    let wmax = e.b(44usize, 80);
    let hs: Vec<usize> = e.b(vec![1, 2, 3, 5, 8, 13], (1..=20).collect());
    e.par("widths", &format!("all widths 1..={} x {} heights x radii 0..=10 x 3 contents", wmax, hs.len()), wmax, |t, i| {
        let w = i + 1;
        for &h in &hs {
            for r in 0..=10 {
                let (c, alpha) = LAYOUTS4[(w + h + r) % 4];
                let kinds: &[usize] = if r <= 5 { &[0, 2, 3] } else { &[0] };
                for &k in kinds {
                    check(t, &mixed(w * h * c, r + k, k), w, h, c, alpha, r);
                }
            }
        }
    });
    e.par("heights", &format!("all heights 1..={} x widths 1, 4, 9 x radii 0..=8", wmax), wmax, |t, i| {
        let h = i + 1;
        for w in [1usize, 4, 9] {
            for r in 0..=8 {
                let (c, alpha) = LAYOUTS[(w + h + r) % 7];
                check(t, &mixed(w * h * c, r, r % 5), w, h, c, alpha, r);
            }
        }
    });
    e.par("layouts", "7 layouts x shapes up to 6x6 x radii 0..=3 x 3 contents", 36, |t, i| {
        let (w, h) = shapes(6, 6)[i];
        for (c, alpha) in LAYOUTS {
            for r in 0..=3 {
                for k in [0, 1, 4] {
                    check(t, &mixed(w * h * c, 9 + r, k), w, h, c, alpha, r);
                }
            }
        }
    });
    e.par("many channels", "5..=9 and 16 channels x 10 shapes x radii 0..=3 x 5 contents", 14, |t, i| {
        let (c, alpha) = if i < 12 { LAYOUTS_W[i % 6] } else { (16, i % 2 == 0) };
        for (w, h) in [(1usize, 1usize), (2, 3), (5, 4), (11, 3), (3, 12), (1, 20), (20, 1), (9, 9), (14, 2), (2, 14)] {
            for r in 0..=3 {
                for k in 0..5 {
                    check(t, &mixed(w * h * c, r + k + i, k), w, h, c, alpha, r);
                }
            }
        }
    });
    e.par("wide stripes", "radii 20..=70 in steps of 5, 63, 64, 66 and 100 on images of 2 and 3 rows or columns wider than a stripe of columns", 14, |t, i| {
        let r = if i < 10 { 20 + 5 * i } else { [63, 64, 66, 100][i - 10] };
        for (w, h) in [(90usize, 2usize), (2, 90), (140, 1), (1, 140), (67, 3)] {
            check(t, &mixed(w * h, r, i % 3), w, h, 1, false, r);
        }
    });
    e.par("large radii", "radii 11..=40, 64, 100 on small images (windows larger than the image)", 32, |t, i| {
        let r = if i < 30 { 11 + i } else { [64, 100][i - 30] };
        for (w, h) in [(1usize, 1usize), (3, 2), (2, 7), (9, 9)] {
            check(t, &mixed(w * h, r, 0), w, h, 1, false, r);
        }
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image, radius 1, and 2 for the first", 3, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001), (1101, 1003)][i];
        let r = [1, 1, 2][i];
        check(t, &mixed(w * h, 3, i), w, h, 1, false, r);
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (20000, 1), (1, 20000)];
    e.par("large", "6 large shapes x radii 0, 1, 2, 4, layouts in turn", big.len() * 4, |t, i| {
        let (w, h) = big[i % big.len()];
        let r = [0, 1, 2, 4][i / big.len()];
        let (c, alpha) = LAYOUTS4[i % 4];
        check(t, &mixed(w * h * c, 3, 0), w, h, c, alpha, r);
        check(t, &mixed(w * h * c, 3, 3), w, h, c, alpha, r);
    });
    e.finish();
}
