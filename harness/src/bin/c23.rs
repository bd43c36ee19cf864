//! C23: opening, closing and gradient obey the algebra of morphology.
use imgproc_rs::image::Image;
use imgproc_rs::morphology as mo;
use vh::*;

fn count(d: &[bool], w: usize, h: usize, r: u64) -> (Vec<bool>, Vec<bool>) {
    let mut p = vec![0u64; (w + 1) * (h + 1)];
    for y in 0..h {
        let mut s = 0;
        for x in 0..w {
            s += d[y * w + x] as u64;
            p[(y + 1) * (w + 1) + x + 1] = p[y * (w + 1) + x + 1] + s;
        }
    }
    let (mut er, mut di) = (Vec::with_capacity(w * h), Vec::with_capacity(w * h));
    for y in 0..h as u64 {
        for x in 0..w as u64 {
            let (x0, y0) = (x.saturating_sub(r) as usize, y.saturating_sub(r) as usize);
            let (x1, y1) = ((x + r + 1).min(w as u64) as usize, (y + r + 1).min(h as u64) as usize);
            let q = |a: usize, b: usize| p[b * (w + 1) + a];
            let c = q(x1, y1) + q(x0, y0) - q(x0, y1) - q(x1, y0);
            let inside = x >= r && y >= r && x + r < w as u64 && y + r < h as u64;
            er.push(inside && c == ((x1 - x0) * (y1 - y0)) as u64);
            di.push(c > 0);
        }
    }
    (er, di)
}
fn erode(d: &[bool], w: usize, h: usize, r: u64) -> Vec<bool> {
    count(d, w, h, r).0
}
fn dilate(d: &[bool], w: usize, h: usize, r: u64) -> Vec<bool> {
    count(d, w, h, r).1
}

#[derive(Clone, Copy)]
struct Sh {
    w: usize,
    h: usize,
    alpha: bool,
}
fn img(d: &[bool], s: Sh) -> Image<u8> {
    let c = if s.alpha { 2 } else { 1 };
    let px: Vec<u8> = (0..d.len() * c).map(|i| if s.alpha && i % 2 == 1 { mix_u8(i, 4) } else if d[i / c] { 255 } else { 0 }).collect();
    Image::from_slice(s.w as u32, s.h as u32, c as u8, s.alpha, &px)
}
fn bits(o: &Image<u8>, s: Sh, name: &str) -> Result<Vec<bool>, String> {
    let c = if s.alpha { 2 } else { 1 };
    let m = M::of(o)?;
    same_dims(&m, &M::new(s.w, s.h, c, s.alpha)).map_err(|e| format!("{}: {}", name, e))?;
    let mut v = Vec::with_capacity(s.w * s.h);
    for i in 0..s.w * s.h {
        match o.data()[i * c] {
            0 => v.push(false),
            255 => v.push(true),
            q => return Err(format!("{}: pixel ({}, {}) is {}", name, i % s.w, i / s.w, q)),
        }
        if s.alpha && o.data()[i * 2 + 1] != mix_u8(i * 2 + 1, 4) {
            return Err(format!("{}: alpha changed", name));
        }
    }
    Ok(v)
}
fn same(a: &[bool], b: &[bool], w: usize, what: &str) -> Result<(), String> {
    match (0..a.len()).find(|&i| a[i] != b[i]) {
        None => Ok(()),
        Some(i) => Err(format!("{}: pixel ({}, {}) is {} but should be {}", what, i % w, i / w, a[i], b[i])),
    }
}
fn subset(a: &[bool], b: &[bool], w: usize, what: &str) -> Result<(), String> {
    match (0..a.len()).find(|&i| a[i] && !b[i]) {
        None => Ok(()),
        Some(i) => Err(format!("{} fails at pixel ({}, {})", what, i % w, i / w)),
    }
}

/// everything about one image; returns (erosion, dilation) as computed by the implementation
fn check(t: &mut T, d: &[bool], s: Sh, r: u32) {
    t.case(
        || format!("radius {} on {}x{} alpha={} {:?}", r, s.w, s.h, s.alpha, d.iter().take(64).map(|&b| b as u8).collect::<Vec<_>>()),
        |t| {
            let (w, h) = (s.w, s.h);
            let a = img(d, s);
            t.seen(hash_bytes((w * 100000 + h) as u64, &[r as u8, s.alpha as u8]), a.data());
            let rr = r as u64;
            let mut run = |t: &mut T, name: &str, f: &dyn Fn(&Image<u8>, u32) -> imgproc_rs::error::ImgProcResult<Image<u8>>, x: &[bool]| -> Result<Vec<bool>, String> {
                let i = img(x, s);
                let o = t.imp(|| f(&i, r))?.map_err(|e| format!("{}: error {:?}", name, e))?;
                if i.data() != img(x, s).data() {
                    return Err(format!("{} modified its input", name));
                }
                bits(&o, s, name)
            };
            let er = run(t, "erode", &mo::erode, d)?;
            let di = run(t, "dilate", &mo::dilate, d)?;
            let op = run(t, "open", &mo::open, d)?;
            let cl = run(t, "close", &mo::close, d)?;
            let gr = run(t, "gradient", &mo::gradient, d)?;
            // definitions
            let (me, md) = count(d, w, h, rr);
            same(&op, &dilate(&me, w, h, rr), w, "opening is erosion then dilation")?;
            same(&cl, &erode(&md, w, h, rr), w, "closing is dilation then erosion")?;
            let x: Vec<bool> = (0..w * h).map(|i| me[i] != md[i]).collect();
            same(&gr, &x, w, "gradient is where dilation and erosion differ")?;
            let x: Vec<bool> = (0..w * h).map(|i| er[i] != di[i]).collect();
            same(&gr, &x, w, "gradient is where the library's dilation and erosion differ")?;
            // composition with the library's own steps
            let x = run(t, "dilate", &mo::dilate, &er)?;
            same(&op, &x, w, "open vs dilate(erode)")?;
            let x = run(t, "erode", &mo::erode, &di)?;
            same(&cl, &x, w, "close vs erode(dilate)")?;
            // algebra
            subset(&er, d, w, "erosion adds no pixel")?;
            subset(d, &di, w, "dilation removes no pixel")?;
            subset(&op, d, w, "opening is contained in the image")?;
            let oo = run(t, "open", &mo::open, &op)?;
            same(&oo, &op, w, "opening is idempotent")?;
            let m = 2 * r as usize;
            let margin = (0..w * h).all(|i| !d[i] || (i % w >= m && i / w >= m && i % w + m < w && i / w + m < h));
            if margin {
                subset(d, &cl, w, "closing contains the image")?;
                let cc = run(t, "close", &mo::close, &cl)?;
                same(&cc, &cl, w, "closing is idempotent")?;
            }
            let neg: Vec<bool> = d.iter().map(|b| !b).collect();
            let on = run(t, "open", &mo::open, &neg)?;
            for i in 0..w * h {
                if i % w >= m && i / w >= m && i % w + m < w && i / w + m < h && on[i] == cl[i] {
                    return Err(format!("closing is not dual to opening at ({}, {})", i % w, i / w));
                }
            }
            if a.data() != img(d, s).data() {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}

fn main() {
    let e = Engine::new("C23");
    let nb = e.b(12usize, 15);
    let mut shp: Vec<(usize, usize)> = Vec::new();
    for h in 1..=nb {
        for w in 1..=nb / h {
            shp.push((w, h));
        }
    }
    let chunks = 4;
    e.par("all binary images", &format!("every binary image of at most {} pixels x radii 0..=2, some with alpha", nb), shp.len() * chunks, |t, i| {
        let (w, h) = shp[i / chunks];
        let tot = pow(2, w * h);
        let mut k = i % chunks;
        while k < tot {
            let d: Vec<bool> = (0..w * h).map(|b| k >> b & 1 == 1).collect();
            for r in 0..=2 {
                check(t, &d, Sh { w, h, alpha: (k / chunks + r as usize) % 4 == 0 }, r);
            }
            k += chunks;
        }
    });
    // inclusion: along every chain image < image + one pixel
    let ib = e.b(9usize, 12);
    e.par("inclusion", &format!("every pair image / image plus one pixel of at most {} pixels x radii 0..=2 (all inclusions follow by chaining)", ib), shp.iter().filter(|s| s.0 * s.1 <= ib).count(), |t, i| {
        let (w, h) = *shp.iter().filter(|s| s.0 * s.1 <= ib).nth(i).unwrap();
        let n = w * h;
        for r in 0..=2u32 {
            t.case(
                || format!("inclusion lattice of {}x{} radius {}", w, h, r),
                |t| {
                    let s = Sh { w, h, alpha: false };
                    let mut er = Vec::new();
                    let mut di = Vec::new();
                    for k in 0..pow(2, n) {
                        let d: Vec<bool> = (0..n).map(|b| k >> b & 1 == 1).collect();
                        let a = img(&d, s);
                        t.seen(hash_bytes((w * 1000 + h) as u64, &[r as u8, 77]), a.data());
                        let x = t.imp(|| mo::erode(&a, r))?.map_err(|e| format!("error {:?}", e))?;
                        let y = t.imp(|| mo::dilate(&a, r))?.map_err(|e| format!("error {:?}", e))?;
                        let pack = |v: Vec<bool>| v.iter().enumerate().fold(0usize, |s, (i, &b)| s | (b as usize) << i);
                        er.push(pack(bits(&x, s, "erode")?));
                        di.push(pack(bits(&y, s, "dilate")?));
                    }
                    for k in 0..pow(2, n) {
                        for b in 0..n {
                            let l = k | 1 << b;
                            if er[k] & !er[l] != 0 || di[k] & !di[l] != 0 {
                                return Err(format!("inclusion of {:b} in {:b} is not preserved", k, l));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    // figures with margins: small patterns in the middle of a larger frame
    let pat = e.b(9usize, 12);
    e.par("margins", &format!("every pattern of {} pixels inside a frame of 2r and 2r+1 blank pixels, radii 1..=3", pat), 6, |t, i| {
        let r = i / 2 + 1;
        let m = 2 * r + i % 2;
        let (pw, ph) = (3usize, pat / 3);
        let (w, h) = (pw + 2 * m, ph + 2 * m);
        for k in 0..pow(2, pw * ph) {
            let mut d = vec![false; w * h];
            for b in 0..pw * ph {
                d[(m + b / pw) * w + m + b % pw] = k >> b & 1 == 1;
            }
            check(t, &d, Sh { w, h, alpha: k % 5 == 0 }, r as u32);
        }
    });
    let rows = e.b(60usize, 150);
    e.par("sizes", &format!("shapes with sides up to {} x radii 0..=10 x 3 densities", rows), rows, |t, i| {
        let n = i + 1;
        for (w, h) in [(n, 1), (1, n), (n, 9), (7, n)] {
            for r in [0u32, 1, 2, 3, 10] {
                for dens in [20u8, 128, 235] {
                    let d: Vec<bool> = (0..w * h).map(|k| mix_u8(k, r as usize) < dens).collect();
                    check(t, &d, Sh { w, h, alpha: (i + h) % 3 == 0 }, r);
                }
            }
        }
    });
    let big = [(64usize, 64usize), (257, 255), (300, 300), (1031, 67), (3, 4099), (70000, 1), (1, 70000), (1101, 1003)];
    e.par("large", "8 large shapes x radii 0, 1, 2, 7, 100 x dense, sparse, all white, one black", big.len() * 5, |t, i| {
        let (w, h) = big[i % big.len()];
        let r = [0u32, 1, 2, 7, 100][i / big.len()];
        let n = w * h;
        let s = Sh { w, h, alpha: i % 2 == 1 };
        if n > 1 << 20 && !t.eng.thorough() {
            check(t, &(0..n).map(|k| mix_u8(k, 5) < 253).collect::<Vec<_>>(), s, r.min(7));
            return;
        }
        check(t, &vec![true; n], s, r);
        check(t, &(0..n).map(|k| k != n / 2).collect::<Vec<_>>(), s, r);
        for dens in [2u8, 253] {
            check(t, &(0..n).map(|k| mix_u8(k, 5) < dens).collect::<Vec<_>>(), s, r);
        }
    });
    e.par("reject", "channels 1..=255 with and without alpha", 510, |t, i| {
        let (c, alpha) = (i / 2 + 1, i % 2 == 1);
        if c == 1 && alpha {
            return;
        }
        let ok = c == 1 || (c == 2 && alpha);
        for r in [0u32, 1, 3, u32::MAX] {
            t.case(
                || format!("{} channels alpha={} radius {}", c, alpha, r),
                |t| {
                    t.seen(i as u64, &[r as u8]);
                    let img = M::gen(3, 3, c, alpha, |x, _, _| (x % 2 * 255) as f64).u8();
                    for (name, g) in [
                        ("open", t.imp(|| mo::open(&img, r))?.is_ok()),
                        ("close", t.imp(|| mo::close(&img, r))?.is_ok()),
                        ("gradient", t.imp(|| mo::gradient(&img, r))?.is_ok()),
                    ] {
                        if g != ok {
                            return Err(format!("{} returned {}", name, if g { "Ok" } else { "Err" }));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    e.finish();
}
