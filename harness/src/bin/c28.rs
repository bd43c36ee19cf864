//! C28: summed-area tables give exact rectangle sums.
use imgproc_rs::image::{BaseImage, Image, Number};
use imgproc_rs::util;
use vh::*;

fn prefix(m: &M) -> M {
    let mut p = m.clone();
    for k in 0..m.c {
        for y in 0..m.h {
            let mut row = 0.0;
            for x in 0..m.w {
                row += m.at(x, y, k);
                let up = if y > 0 { p.at(x, y - 1, k) } else { 0.0 };
                p.set(x, y, k, row + up);
            }
        }
    }
    p
}

trait Cv: Number + std::fmt::Debug {
    fn cv(v: f64) -> Self;
    fn back(self) -> f64;
}
macro_rules! cv {
    ($($t:ty),*) => {$(impl Cv for $t { fn cv(v: f64) -> $t { v as $t } fn back(self) -> f64 { self as f64 } })*};
}
cv!(u16, u32, u64, i16, i32, i64, f32, f64);

fn rects_of(w: usize, h: usize, all: bool) -> Vec<(usize, usize, usize, usize)> {
    let mut v = Vec::new();
    if all {
        for y0 in 0..h {
            for y1 in y0..h {
                for x0 in 0..w {
                    for x1 in x0..w {
                        v.push((x0, y0, x1, y1));
                    }
                }
            }
        }
    } else {
        let pick = |n: usize| {
            let mut s = vec![0, 1.min(n - 1), n / 3, n / 2, n.saturating_sub(2), n - 1];
            s.sort();
            s.dedup();
            s
        };
        for &y0 in &pick(h) {
            for &y1 in &pick(h) {
                for &x0 in &pick(w) {
                    for &x1 in &pick(w) {
                        if x0 <= x1 && y0 <= y1 {
                            v.push((x0, y0, x1, y1));
                        }
                    }
                }
            }
        }
        // every column and every row as an end of a rectangle
        for x in 0..w {
            v.extend([(0, 0, x, h - 1), (x, h / 2, x, h - 1), (x / 2, 0, x, h / 3), (x, h / 3, w - 1, h / 2), (x.saturating_sub(1), h - 1, x, h - 1)]);
        }
        for y in 0..h {
            v.extend([(0, 0, w - 1, y), (w / 2, y, w - 1, y), (0, y / 2, w / 3, y), (w / 3, y, w / 2, h - 1), (w - 1, y.saturating_sub(1), w - 1, y)]);
        }
    }
    v
}

fn check<N: Cv>(t: &mut T, m: &M, all: bool) {
    let ty = std::any::type_name::<N>();
    t.case(
        || format!("summed-area table ({}) of {}", ty, m.show()),
        |t| {
            let d: Vec<N> = m.d.iter().map(|&v| N::cv(v)).collect();
            let a: Image<N> = Image::from_slice(m.w as u32, m.h as u32, m.c as u8, m.alpha, &d);
            let mut key: Vec<u8> = ty.as_bytes().to_vec();
            for v in &m.d {
                key.extend(v.to_le_bytes());
            }
            t.seen(hash_bytes((m.w * 100000 + m.h) as u64, &[m.c as u8, m.alpha as u8]), &key);
            let p = prefix(m);
            let s = t.imp(|| util::generate_summed_area_table(&a))?;
            let i = s.info();
            if (i.width as usize, i.height as usize, i.channels as usize, i.alpha) != (m.w, m.h, m.c, m.alpha) || s.data().len() != m.d.len() {
                return Err("table dimensions differ from the image".into());
            }
            for (j, v) in s.data().iter().enumerate() {
                if v.back() != p.d[j] {
                    return Err(format!("table entry (x={}, y={}, c={}) is {:?} but should be {}", j / m.c % m.w, j / m.c / m.w, j % m.c, v, p.d[j]));
                }
            }
            for (x0, y0, x1, y1) in rects_of(m.w, m.h, all) {
                let r = t.imp(|| util::rectangular_intensity_sum(&s, x0 as u32, y0 as u32, x1 as u32, y1 as u32))?;
                if r.len() != m.c {
                    return Err(format!("{} sums for {} channels", r.len(), m.c));
                }
                for k in 0..m.c {
                    let want = p.at(x1, y1, k) - if x0 > 0 { p.at(x0 - 1, y1, k) } else { 0.0 } - if y0 > 0 { p.at(x1, y0 - 1, k) } else { 0.0 }
                        + if x0 > 0 && y0 > 0 { p.at(x0 - 1, y0 - 1, k) } else { 0.0 };
                    if m.w * m.h <= 64 {
                        // by plain addition as well
                        let mut q = 0.0;
                        for y in y0..=y1 {
                            for x in x0..=x1 {
                                q += m.at(x, y, k);
                            }
                        }
                        assert_eq!(q, want);
                    }
                    if r[k].back() != want {
                        return Err(format!("sum over ({}, {})..=({}, {}) channel {} is {:?} but should be {}", x0, y0, x1, y1, k, r[k], want));
                    }
                }
            }
            if a.data() != &d[..] {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}

fn main() {
    let e = Engine::new("C28");
    let smax = e.b(8usize, 12);
    let sh = shapes(smax, smax);
    e.par("all rectangles", &format!("all shapes up to {}x{} x every rectangle x 7 layouts x 8 sample types", smax, smax), sh.len(), |t, i| {
        let (w, h) = sh[i];
        for (c, alpha) in LAYOUTS {
            let m = mix_img(w, h, c, alpha, 1);
            if w * h <= 128 {
                check::<u16>(t, &m, true);
            }
            check::<u32>(t, &m, true);
            check::<u64>(t, &m, true);
            if w * h <= 64 {
                check::<i16>(t, &m, true);
            }
            check::<i32>(t, &m, true);
            check::<i64>(t, &m, true);
            check::<f32>(t, &m, true);
            check::<f64>(t, &m, true);
            let s = m.map(|v| v - 128.0);
            check::<i32>(t, &s, true);
            check::<f32>(t, &s, true);
            check::<f64>(t, &s.map(|v| v * 65536.0), true);
        }
    });
    e.par("impulses", "every unit impulse position of shapes up to 6x6 and all 2^n binary images of at most 9 pixels, every rectangle", 36, |t, i| {
        let (w, h) = shapes(6, 6)[i];
        for p in 0..w * h {
            let mut m = M::new(w, h, 1, false);
            m.d[p] = 1.0;
            check::<u32>(t, &m, true);
            check::<f64>(t, &m, true);
        }
        if w * h <= 9 {
            for k in 0..pow(2, w * h) {
                check::<u16>(t, &word_img(k, w, h, 1, false, &[0, 1]), true);
            }
        }
    });
    e.par("many channels", "channel counts 5..=40, 64, 127, 128, 254, 255 with and without alpha x 5 shapes, every rectangle", 41, |t, i| {
        let c = if i < 36 { i + 5 } else { [64, 127, 128, 254, 255][i - 36] };
        for alpha in [false, true] {
            for (w, h) in [(1usize, 1usize), (3, 1), (1, 4), (3, 3), (4, 2)] {
                let m = mix_img(w, h, c, alpha, 5);
                check::<f32>(t, &m, true);
                check::<u32>(t, &m, true);
                check::<f64>(t, &m.map(|v| v - 100.0), true);
            }
        }
    });
    let rows = e.b(40usize, 100);
    e.par("sizes", &format!("rows and columns of 1..={} pixels, every rectangle", rows), rows, |t, i| {
        let n = i + 1;
        let (c, alpha) = LAYOUTS[i % 7];
        for (w, h) in [(n, 1), (1, n), (n, 2), (3, n)] {
            let m = mix_img(w, h, c, alpha, 2);
            check::<f32>(t, &m, true);
            check::<u32>(t, &m, true);
        }
    });
    let long = [(1031usize, 1usize), (1, 1031), (1030, 2), (2, 1030), (2100, 1), (1, 2100), (70, 60), (300, 4), (4, 300), (131, 33)];
    e.par("long", "10 shapes up to 2100 long, every rectangle", long.len(), |t, i| {
        let (w, h) = long[i];
        check::<u32>(t, &mix_img(w, h, 1, false, 6), true);
        check::<f64>(t, &mix_img(w, h, 1 + i % 2, false, 7), i % 2 == 0);
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (70001, 1), (1, 70001), (66000, 3), (2, 66000), (255, 257), (1101, 1003)];
    e.par("large", "10 large shapes, rectangles with corners at 6 x 6 positions, and 5 with each column and each row as an end; f32 sums up to 2^23", big.len() * 2, |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = LAYOUTS[i % 7];
        let m = mix_img(w, h, c, alpha, 3);
        check::<f64>(t, &m, false);
        check::<u32>(t, &m, false);
        check::<i64>(t, &m, false);
        if w * h * 255 < 1 << 23 {
            check::<f32>(t, &m, false);
            check::<f32>(t, &m.map(|_| 255.0), false);
        } else {
            check::<f32>(t, &m.map(|v| (v as u32 % if w * h > 1 << 18 { 8 } else { 64 }) as f64), false);
        }
    });
    e.finish();
}
