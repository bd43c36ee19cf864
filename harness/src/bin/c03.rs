//! C03: sub-images and neighbourhoods show the right pixels, edges repeated.
use imgproc_rs::image::{BaseImage, Image, Number, SubImage};
use vh::*;

fn seq<S: Number>(w: usize, h: usize, c: usize, alpha: bool, f: impl Fn(usize) -> S) -> Image<S> {
    Image::from_vec(w as u32, h as u32, c as u8, alpha, (0..w * h * c).map(f).collect())
}

/// every way of reading the sub-image against the expected list of source coordinates
fn check_sub<S: Number + std::fmt::Debug>(
    img: &Image<S>,
    sub: &SubImage<S>,
    w: usize,
    c: usize,
    alpha: bool,
    ew: usize,
    eh: usize,
    want: &[(usize, usize)],
) -> Result<(), String> {
    if sub.info().whca() != (ew as u32, eh as u32, c as u8, alpha) {
        return Err(format!("sub-image reports {:?}, expected {}x{}", sub.info(), ew, eh));
    }
    let px = |(x, y): (usize, usize)| &img.data()[(y * w + x) * c..(y * w + x + 1) * c];
    if sub.data().len() != want.len() {
        return Err(format!("data() lists {} pixels, expected {}", sub.data().len(), want.len()));
    }
    for (i, &p) in want.iter().enumerate() {
        if sub.data()[i] != px(p) {
            return Err(format!("data()[{}] is {:?}, should be the pixel at {:?} = {:?}", i, sub.data()[i], p, px(p)));
        }
        if &sub[i] != px(p) {
            return Err(format!("[{}] is {:?}, should be the pixel at {:?} = {:?}", i, &sub[i], p, px(p)));
        }
        let (x, y) = (i % ew, i / ew);
        if sub.get_pixel(x as u32, y as u32) != px(p) {
            return Err(format!("get_pixel({}, {}) is {:?}, should be the pixel at {:?} = {:?}", x, y, sub.get_pixel(x as u32, y as u32), p, px(p)));
        }
    }
    let v: Vec<S> = want.iter().flat_map(|&p| px(p).iter().copied()).collect();
    if sub.to_vec() != v {
        return Err("to_vec() does not list the pixels in row-major order".into());
    }
    let cl = sub.clone();
    if cl.to_vec() != v || cl.info() != sub.info() {
        return Err("a clone of the sub-image differs".into());
    }
    Ok(())
}

fn rects<S: Number + std::fmt::Debug>(e: &Engine, name: &str, sh: &[(usize, usize)], lay: &[(usize, bool)], f: impl Fn(usize) -> S + Sync) {
    e.par(name, "all shapes x layouts x all rectangles (x, y <= size + 1, width, height <= size + 1): inside = exact pixels, outside = panic", sh.len() * lay.len(), |t, i| {
        let ((w, h), (c, alpha)) = (sh[i / lay.len()], lay[i % lay.len()]);
        let img = seq(w, h, c, alpha, &f);
        for y in 0..=h + 1 {
            for x in 0..=w + 1 {
                for rh in 0..=h + 1 {
                    for rw in 0..=w + 1 {
                        let inside = x < w && y < h && x + rw <= w && y + rh <= h;
                        if !inside && (rw == 0 || rh == 0) {
                            continue; // an empty rectangle outside: not specified
                        }
                        t.case(
                            || format!("get_subimage({}, {}, {}, {}) of {}x{}x{} alpha={}", x, y, rw, rh, w, h, c, alpha),
                            |t| {
                                t.seen(hash_bytes(11, &[w as u8, h as u8, c as u8, alpha as u8]), &[x as u8, y as u8, rw as u8, rh as u8]);
                                let r = t.try_imp(|| img.get_subimage(x as u32, y as u32, rw as u32, rh as u32));
                                match r {
                                    Ok(s) if inside => {
                                        let want: Vec<_> = (0..rh).flat_map(|j| (0..rw).map(move |i| (x + i, y + j))).collect();
                                        check_sub(&img, &s, w, c, alpha, rw, rh, &want)?;
                                        for (a, b) in [(rw, 0), (0, rh), (rw, rh)] {
                                            if t.try_imp(|| s.get_pixel(a as u32, b as u32).len()).is_ok() {
                                                return Err(format!("get_pixel({}, {}) of a {}x{} sub-image did not panic", a, b, rw, rh));
                                            }
                                        }
                                        Ok(())
                                    }
                                    Ok(_) => Err("the rectangle reaches outside the image but was accepted".into()),
                                    Err(m) if inside => Err(format!("panicked: {}", m)),
                                    Err(_) => Ok(()),
                                }
                            },
                        );
                    }
                }
            }
        }
        let m = u32::MAX;
        for (x, y, rw, rh) in [
            (m, 0, 1, 1), (0, m, 1, 1), (m, m, 1, 1), (1 << 16, 1 << 16, 1, 1), (0, 0, 1 << 20, 1), (0, 0, 1, 1 << 20),
            (0, 0, w as u32 + 256, 1), (0, 0, 1, h as u32 + 256), (256, 0, 1, 1), (0, 256, 1, 1), (65536, 0, 1, 1), (0, 65536, 1, 1),
        ] {
            t.case(
                || format!("get_subimage({}, {}, {}, {}) of {}x{}x{}", x, y, rw, rh, w, h, c),
                |t| match t.try_imp(|| img.get_subimage(x, y, rw, rh).info()) {
                    Ok(_) => Err("the rectangle reaches outside the image but was accepted".into()),
                    Err(_) => Ok(()),
                },
            );
        }
    });
}

fn hoods<S: Number + std::fmt::Debug>(e: &Engine, name: &str, sh: &[(usize, usize)], lay: &[(usize, bool)], sizes: &(dyn Fn(usize, usize) -> Vec<usize> + Sync), border: usize, f: impl Fn(usize) -> S + Sync) {
    e.par(name, "all positions (large images: all positions near borders and centre) x odd sizes x rows, columns and squares", sh.len() * lay.len(), |t, i| {
        let ((w, h), (c, alpha)) = (sh[i / lay.len()], lay[i % lay.len()]);
        let img = seq(w, h, c, alpha, &f);
        let pick = |n: usize| -> Vec<usize> {
            (0..n).filter(|&v| v < border || v + border >= n || v == n / 2 || v % 256 < 2 || v % 256 > 253).collect()
        };
        for n in sizes(w, h) {
            for &y in &pick(h) {
                for &x in &pick(w) {
                    let off = |p: usize, k: usize, m: usize| (p as i64 + k as i64 - (n / 2) as i64).clamp(0, m as i64 - 1) as usize;
                    for kind in 0..3 {
                        if kind == 2 && n * n > 40_000 && (n > 257 || x != w / 2 && y != h / 2 || w * h > 3000 && x * 2 + 2 < w) {
                            continue;
                        }
                        t.case(
                            || format!("neighbourhood kind {} (0 row, 1 column, 2 square) size {} at ({}, {}) of {}x{}x{} alpha={}", kind, n, x, y, w, h, c, alpha),
                            |t| {
                                t.seen(hash_bytes(12, &[w as u8, h as u8, c as u8, alpha as u8, kind]), &[x as u8, y as u8, n as u8, (x >> 8) as u8, (y >> 8) as u8, (n >> 8) as u8]);
                                let (s, ew, eh, want): (_, _, _, Vec<(usize, usize)>) = match kind {
                                    0 => (t.imp(|| img.get_neighborhood_1d(x as u32, y as u32, n as u32, false))?, n, 1, (0..n).map(|k| (off(x, k, w), y)).collect()),
                                    1 => (t.imp(|| img.get_neighborhood_1d(x as u32, y as u32, n as u32, true))?, 1, n, (0..n).map(|k| (x, off(y, k, h))).collect()),
                                    _ => (
                                        t.imp(|| img.get_neighborhood_2d(x as u32, y as u32, n as u32))?,
                                        n,
                                        n,
                                        (0..n * n).map(|k| (off(x, k % n, w), off(y, k / n, h))).collect(),
                                    ),
                                };
                                check_sub(&img, &s, w, c, alpha, ew, eh, &want)
                            },
                        );
                    }
                }
            }
        }
        for (x, y) in [(w, 0), (0, h), (w, h), (u32::MAX as usize, 0), (0, u32::MAX as usize), (w + 256, 0), (0, h + 65536)] {
            t.case(
                || format!("neighbourhoods at ({}, {}) outside {}x{}", x, y, w, h),
                |t| {
                    let (x, y) = (x as u32, y as u32);
                    if t.try_imp(|| img.get_neighborhood_1d(x, y, 3, false).info()).is_ok()
                        || t.try_imp(|| img.get_neighborhood_1d(x, y, 3, true).info()).is_ok()
                        || t.try_imp(|| img.get_neighborhood_2d(x, y, 3).info()).is_ok()
                    {
                        return Err("a position outside the image was accepted".into());
                    }
                    Ok(())
                },
            );
        }
    });
}

fn main() {
    // rectangles whose end overflows 32 bits; a correct implementation may run out of memory here, hence in a fork
    let mut huge = Vec::new();
    for (w, h) in [(1u32, 1u32), (3, 2), (2, 4)] {
        let img = seq::<u8>(w as usize, h as usize, 1, false, |i| i as u8);
        for (x, y) in [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)] {
            let m = u32::MAX;
            for (rw, rh) in [(m, 1), (1, m), (m, m), (m - x, 1), (1, m - y), ((m - x).wrapping_add(1), 1), (1, (m - y).wrapping_add(1)), ((m - x).wrapping_add(2), 1), (1, (m - y).wrapping_add(2)), (1 << 31, 1), (1, 1 << 31)] {
                if rw > 1 || rh > 1 {
                    huge.push((w, h, x, y, rw, rh, guard::forked(|| drop(img.get_subimage(x, y, rw, rh)))));
                }
            }
        }
    }
    huge.retain(|&(.., rw, rh, _)| rw != 0 && rh != 0);
    let e = Engine::new("C03");
    e.par("rectangles/overflow", "three shapes x four corners x rectangles whose end overflows 32 bits, each in a process of its own: never accepted", huge.len(), |t, i| {
        let (w, h, x, y, rw, rh, fate) = huge[i];
        t.case(
            || format!("get_subimage({}, {}, {}, {}) of {}x{}x1", x, y, rw, rh, w, h),
            |t| {
                t.seen(12, &[fate as u8]);
                match fate {
                    guard::Fate::Returned => Err("the rectangle reaches outside the image but was accepted".into()),
                    _ => Ok(()),
                }
            },
        );
    });
    let lay = [(1, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true), (5, false), (6, true), (8, true), (9, false), (17, true)];
    rects::<u32>(&e, "rectangles/u32", &shapes(e.b(6, 9), e.b(6, 8)), &lay, |i| i as u32 + 1);
    rects::<f32>(&e, "rectangles/f32", &shapes(4, 4), &lay, |i| i as f32 + 0.5);
    rects::<u8>(&e, "rectangles/large", &[(17, 3), (3, 17), (20, 1), (1, 20), (13, 11)], &[(1, false), (4, true)], |i| label_u8(i, 0));
    let odd = |w: usize, h: usize| (0..=w.max(h) + 2).map(|k| 2 * k + 1).collect::<Vec<_>>();
    hoods::<u32>(&e, "neighbourhoods/u32", &shapes(e.b(7, 10), e.b(7, 10)), &lay, &odd, 99, |i| i as u32 + 1);
    hoods::<f32>(&e, "neighbourhoods/f32", &shapes(4, 4), &lay, &odd, 99, |i| i as f32 + 0.5);
    hoods::<u32>(
        &e,
        "neighbourhoods/large",
        &[(300, 5), (5, 300), (70000, 1), (1, 70000), (257, 257), (40, 33), (1025, 2), (2, 1025)],
        &[(1, false), (4, true)],
        &|_, _| vec![1, 3, 5, 7, 9, 11, 15, 21, 33, 63, 65, 127, 129, 255, 257, 513],
        3,
        |i| i as u32 + 1,
    );
    hoods::<u32>(&e, "neighbourhoods/vast", &[(1101, 1003), (1003, 1101), (1300001, 1), (1, 1300001), (5, 210001)], &[(1, false), (3, true)], &|_, _| vec![1, 3, 5, 21], 3, |i| i as u32 + 1);
    // large rectangles: both extents beyond 8 and 16 bits, one at a time
    let big = [(300usize, 257usize), (257, 300), (5, 300), (300, 5), (520, 2), (2, 520), (70000, 1), (1, 70000), (66000, 2), (2, 66000), (1101, 1003), (1003, 1101)];
    e.par("rectangles/big", "12 large images x 2 layouts x rectangles with edges at 0, 1, the middle, around 200, 256, 512 and 65536, and the ends", big.len() * 2, |t, i| {
        let ((w, h), (c, alpha)) = (big[i % big.len()], [(1, false), (4, true)][i / big.len()]);
        let img = seq(w, h, c, alpha, |i| i as u32 + 1);
        let edges = |n: usize| -> Vec<usize> {
            let mut v: Vec<usize> = [0, 1, n / 2, 201, 255, 256, 257, 511, 1000, 65536, n - 1, n].into_iter().filter(|&v| v <= n).collect();
            v.sort();
            v.dedup();
            v
        };
        let (ex, ey) = (edges(w), edges(h));
        let mut budget = if t.eng.thorough() { 60_000_000usize } else { 2_000_000 };
        for &y0 in &ey {
            for &y1 in ey.iter().rev() {
                for &x0 in &ex {
                    for &x1 in ex.iter().rev() {
                        if x0 >= x1 || y0 >= y1 || (x1 - x0) * (y1 - y0) > budget {
                            continue;
                        }
                        let (rw, rh) = (x1 - x0, y1 - y0);
                        budget -= rw * rh;
                        t.case(
                            || format!("get_subimage({}, {}, {}, {}) of {}x{}x{} alpha={}", x0, y0, rw, rh, w, h, c, alpha),
                            |t| {
                                t.seen(hash_bytes(14, &[i as u8]), format!("{},{},{},{}", x0, y0, rw, rh).as_bytes());
                                let s = t.imp(|| img.get_subimage(x0 as u32, y0 as u32, rw as u32, rh as u32))?;
                                let want: Vec<_> = (0..rh).flat_map(|j| (0..rw).map(move |i| (x0 + i, y0 + j))).collect();
                                check_sub(&img, &s, w, c, alpha, rw, rh, &want)
                            },
                        );
                    }
                }
            }
        }
    });
    e.finish();
}
