//! C26: arguments are validated exactly as documented and valid calls never panic.
use imgproc_rs::enums::{Bilateral, Refl, Scale, Thresh, White};
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::{convert, filter, morphology, tone, transform, util};
use vh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Ok,
    Err,
    Any,
}

fn when(c: bool) -> X {
    if c { X::Ok } else { X::Err }
}

/// one call: `want` is the documented outcome, a panic is never one
fn go<R, E: std::fmt::Debug>(t: &mut T, d: impl Fn() -> String, want: X, f: impl FnOnce() -> Result<R, E>) {
    t.case(&d, |t| {
        t.seen(26, d().as_bytes());
        match (t.imp(f)?, want) {
            (Ok(_), X::Err) => Err("accepted an argument outside the documented domain".into()),
            (Err(e), X::Ok) => Err(format!("rejected arguments inside the documented domain: {:?}", e)),
            _ => Ok(()),
        }
    });
}

const SH: [(usize, usize); 8] = [(1, 1), (1, 2), (2, 1), (1, 7), (5, 1), (3, 4), (17, 9), (40, 33)];

fn lay() -> Vec<(usize, bool)> {
    vec![(1, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true), (5, false), (6, true)]
}

fn gray(c: usize, al: bool) -> bool {
    (c == 1 && !al) || (c == 2 && al)
}
/// colour conversions need three colour channels
fn rgb(c: usize, al: bool) -> bool {
    (c == 3 && !al) || (c == 4 && al)
}

const TINY: f32 = f32::from_bits(1);
const ONE_UP: f32 = 1.000_000_1;
const ONE_DOWN: f32 = 0.999_999_94;

fn unit_args() -> Vec<(f32, X)> {
    vec![
        (0.0, X::Ok),
        (-0.0, X::Any),
        (TINY, X::Ok),
        (f32::MIN_POSITIVE, X::Ok),
        (0.25, X::Ok),
        (ONE_DOWN, X::Ok),
        (1.0, X::Ok),
        (ONE_UP, X::Err),
        (1.5, X::Err),
        (255.0, X::Err),
        (f32::MAX, X::Err),
        (f32::INFINITY, X::Err),
        (-TINY, X::Err),
        (-f32::MIN_POSITIVE, X::Err),
        (-1.0, X::Err),
        (f32::MIN, X::Err),
        (f32::NEG_INFINITY, X::Err),
    ]
}

fn main() {
    let e = Engine::new("C26");
    let ls = lay();
    let nl = ls.len();
    let nimg = SH.len() * nl;
    let img = {
        let ls = ls.clone();
        move |i: usize| {
            let (w, h) = SH[i / ls.len()];
            let (c, al) = ls[i % ls.len()];
            mix_img(w, h, c, al, i)
        }
    };
    let shw = |m: &M| format!("{}x{}x{}{}", m.w, m.h, m.c, if m.alpha { "a" } else { "" });

    e.par("bias-all", "all 65536 biases x brightness, brightness_lab and saturation on 1x1 RGB and RGBA images (brightness also gray, gray+alpha)", 256, |t, i| {
        for k in 0..256 {
            let b = (i * 256 + k) as u16 as i16;
            let x = when((-255..=255).contains(&b));
            for &(c, al) in &LAYOUTS4 {
                let m = mix_img(1, 1, c, al, i).u8();
                go(t, || format!("brightness {} on {} channels", b, c), x, || tone::brightness(&m, b));
                if rgb(c, al) {
                    go(t, || format!("brightness_lab {} on {} channels", b, c), x, || tone::brightness_lab(&m, b));
                    go(t, || format!("saturation {} on {} channels", b, c), x, || tone::saturation(&m, b));
                }
            }
        }
    });
    e.par("tone", "8 shapes x 9 layouts x bounds, neighbours and extremes of every argument of the tone operations", nimg, |t, i| {
        let m = img(i);
        let (u, d) = (m.u8(), shw(&m));
        let isrgb = rgb(m.c, m.alpha);
        for b in [i16::MIN, -32767, -256, -255, -254, -1, 0, 1, 254, 255, 256, 32767] {
            let x = when((-255..=255).contains(&b));
            go(t, || format!("brightness {} of {}", b, d), x, || tone::brightness(&u, b));
            if isrgb {
                go(t, || format!("brightness_lab {} of {}", b, d), x, || tone::brightness_lab(&u, b));
                go(t, || format!("saturation {} of {}", b, d), x, || tone::saturation(&u, b));
            }
        }
        for (a, x) in unit_args() {
            go(t, || format!("contrast {} of {}", a, d), x, || tone::contrast(&u, a));
            if isrgb {
                go(t, || format!("contrast_lab {} of {}", a, d), x, || tone::contrast_lab(&u, a));
                for (p, px) in [(0.0, X::Ok), (TINY, X::Ok), (0.1, X::Ok), (1.0, X::Ok), (255.0, X::Ok), (1e6, X::Ok), (1e30, X::Ok), (-TINY, X::Err), (-1.0, X::Err), (f32::NEG_INFINITY, X::Err)] {
                    let want = if x == X::Err || px == X::Err { X::Err } else { x };
                    for white in [White::D50, White::D65] {
                        go(t, || format!("histogram_equalization {} precision {} of {}", a, p, d), want, || tone::histogram_equalization(&u, a, &white, p));
                    }
                }
            }
        }
        for (g, x) in [(0.0, X::Ok), (TINY, X::Ok), (0.45, X::Ok), (1.0, X::Ok), (2.2, X::Ok), (100.0, X::Ok), (f32::MAX, X::Ok), (-0.0, X::Any), (-TINY, X::Err), (-1.0, X::Err), (f32::MIN, X::Err), (f32::NEG_INFINITY, X::Err)] {
            for max in [0u8, 1, 2, 127, 128, 254, 255] {
                go(t, || format!("gamma {} max {} of {}", g, max, d), x, || tone::gamma(&u, g, max));
            }
        }
    });
    e.par("crop", "8 shapes x 9 layouts x all (x, y, width, height) from 0, 1, size-1, size, size+1 and the ends of the u32 range", nimg, |t, i| {
        let m = img(i);
        let (u, f, d) = (m.u8(), m.f32(), shw(&m));
        let g = |n: usize| {
            let n = n as u32;
            let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, u32::MAX - n, u32::MAX - n + 1, u32::MAX - 1, u32::MAX, 1 << 31, (1 << 31) - 1];
            v.sort();
            v.dedup();
            v
        };
        for &x in &g(m.w) {
            for &w in &g(m.w) {
                for &y in &g(m.h) {
                    for &h in &g(m.h) {
                        let inside = x as u64 + w as u64 <= m.w as u64 && y as u64 + h as u64 <= m.h as u64;
                        // an empty rectangle: free, but no panic
                        let want = if inside && (w == 0 || h == 0) { X::Any } else { when(inside) };
                        if want == X::Err && (w == 0 || h == 0) {
                            continue;
                        }
                        go(t, || format!("crop ({}, {}) {}x{} of {}", x, y, w, h, d), want, || transform::crop(&u, x, y, w, h));
                        if want != X::Err {
                            go(t, || format!("crop ({}, {}) {}x{} of {} (f32)", x, y, w, h, d), want, || transform::crop(&f, x, y, w, h));
                        }
                    }
                }
            }
        }
    });
    e.par("compose", "8 back shapes x 9 layouts x front images of 4 shapes and 9 layouts x positions up to the end of the u32 range x weights at, just inside and just outside [0, 1]", nimg, |t, i| {
        let m = img(i);
        let (u, f, d) = (m.u8(), m.f32(), shw(&m));
        for &(fw, fh) in &[(1usize, 1usize), (2, 3), (17, 9), (41, 2)] {
            for &(c, al) in &lay() {
                let fm = mix_img(fw, fh, c, al, 77);
                let (fu, ff) = (fm.u8(), fm.f32());
                if c == m.c && al != m.alpha {
                    continue; // same channel count, different meaning: not specified
                }
                for &x in &[0u32, 1, m.w as u32, u32::MAX - 1, u32::MAX] {
                    for &y in &[0u32, m.h as u32 - 1, 1 << 31, u32::MAX] {
                        let same = when(c == m.c);
                        go(t, || format!("overlay {} at ({}, {}) on {}", shw(&fm), x, y, d), same, || transform::overlay(&u, &fu, x, y));
                        if c == m.c || x == 0 {
                            for (a, ax) in unit_args() {
                                let want = if same == X::Err { X::Err } else { ax };
                                go(t, || format!("superimpose {} at ({}, {}) weight {} on {}", shw(&fm), x, y, a, d), want, || transform::superimpose(&f, &ff, x, y, a));
                            }
                        }
                    }
                }
            }
        }
    });
    e.par("geometry", "8 shapes x 9 layouts: translate to the end of the u32 range, reflect, rotate by 60 angles incl. huge ones, shear by 13 x 13 factors", nimg, |t, i| {
        let m = img(i);
        let (u, f, d) = (m.u8(), m.f32(), shw(&m));
        for &x in &[0u32, 1, m.w as u32 - 1, m.w as u32, m.w as u32 + 1, 1 << 31, u32::MAX] {
            for &y in &[0u32, 1, m.h as u32 - 1, m.h as u32, m.h as u32 + 1, 1 << 31, u32::MAX] {
                go(t, || format!("translate ({}, {}) of {}", x, y, d), X::Ok, || transform::translate(&u, x, y));
                go(t, || format!("translate ({}, {}) of {} (f32)", x, y, d), X::Ok, || transform::translate(&f, x, y));
            }
        }
        go(t, || format!("reflect vertically {}", d), X::Ok, || transform::reflect(&u, Refl::Vertical));
        go(t, || format!("reflect horizontally {}", d), X::Ok, || transform::reflect(&u, Refl::Horizontal));
        for k in 0..48 {
            let a = k as f32 * 15.0 - 180.0;
            go(t, || format!("rotate {} of {}", a, d), X::Ok, || transform::rotate(&f, a));
        }
        for a in [0.001, -0.001, TINY, 89.999, 90.001, 1e3, 123456.7, -1e6, 1e9, f32::MAX, f32::MIN, -0.0] {
            go(t, || format!("rotate {} of {}", a, d), X::Ok, || transform::rotate(&f, a));
        }
        let s = [-3.0, -1.0, -0.5, -0.3, -0.01, -0.0, 0.0, TINY, 0.01, 0.3, 0.5, 1.0, 2.5];
        for sx in s {
            for sy in s {
                go(t, || format!("shear {} {} of {}", sx, sy, d), X::Ok, || transform::shear(&f, sx, sy));
            }
        }
    });
    e.par("scale", "8 shapes x 9 layouts x 4 methods and 11 Lanczos sizes from 1 to 1000 x factor pairs: negative ones rejected, positive ones (1e-9 to 3.7) accepted", nimg, |t, i| {
        let m = img(i);
        let (f, d) = (m.f32(), shw(&m));
        let fs = [(1e-9, X::Ok), (TINY, X::Ok), (0.1, X::Ok), (0.5, X::Ok), (0.99, X::Ok), (1.0, X::Ok), (1.01, X::Ok), (2.0, X::Ok), (3.7, X::Ok), (0.0, X::Any), (-TINY, X::Err), (-0.5, X::Err), (-1.0, X::Err), (f32::MIN, X::Err), (f32::NEG_INFINITY, X::Err)];
        for (fx, xx) in fs {
            for (fy, xy) in fs {
                let want = if xx == X::Err || xy == X::Err { X::Err } else if xx == X::Any || xy == X::Any { X::Any } else { X::Ok };
                for k in 0..4 {
                    go(t, || format!("scale method {} by {} {} of {}", k, fx, fy, d), want, || {
                        transform::scale(&f, fx, fy, match k { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos })
                    });
                }
                if m.w * m.h < 100 || want == X::Err {
                    for size in [1u32, 2, 3, 5, 16, 33, 64, 65, 100, 257, 1000] {
                        if size > 5 && want != X::Err && ((fx != fy && (m.w > 1 || ![(0.5, 0.99), (1.0, 0.5), (TINY, 1.0), (2.0, 0.1)].contains(&(fx, fy)))) || m.w * m.h > 10 || fx > 2.0 || fy > 1.0 || size > 100) {
                            continue;
                        }
                        go(t, || format!("scale_lanczos size {} by {} {} of {}", size, fx, fy, d), want, || transform::scale_lanczos(&f, fx, fy, size));
                    }
                }
            }
        }
    });
    e.par("kernels", "8 shapes x 9 layouts x kernel lengths 0..=40 (1-D), all pairs of lengths 0..=13, 20, 21 and 31..=33 (separable, derivative mask), lengths 0..=130 (2-D): exactly the odd, equal and square ones accepted", nimg, |t, i| {
        let m = img(i);
        let (f, d) = (m.f32(), shw(&m));
        let ker = |n: usize| -> Vec<f32> { (0..n).map(|k| (k as f32) * 0.5 - 1.0).collect() };
        for n in 0..=40usize {
            for v in [false, true] {
                go(t, || format!("filter_1d length {} vertical {} of {}", n, v, d), when(n % 2 == 1), || filter::filter_1d(&f, &ker(n), v));
            }
        }
        let kl: Vec<usize> = (0..=13).chain([20, 21, 31, 32, 33]).collect();
        for &a in &kl {
            for &b in &kl {
                if a == b && a > 13 && m.w * m.h > 300 {
                    continue;
                }
                let ok = a % 2 == 1 && a == b;
                go(t, || format!("separable_filter lengths {} {} of {}", a, b, d), when(ok), || filter::separable_filter(&f, &ker(a), &ker(b)));
                go(t, || format!("derivative_mask lengths {} {} of {}", a, b, d), when(ok && gray(m.c, m.alpha)), || filter::derivative_mask(&f, &ker(a), &ker(b)));
            }
        }
        for n in 0..=130usize {
            let r = (n as f64).sqrt().round() as usize;
            let ok = n % 2 == 1 && r * r == n;
            if ok && n > 60 && m.w * m.h > 300 {
                continue;
            }
            go(t, || format!("unseparable_filter length {} of {}", n, d), when(ok), || filter::unseparable_filter(&f, &ker(n)));
            go(t, || format!("linear_filter length {} of {}", n, d), when(ok), || filter::linear_filter(&f, &ker(n)));
            if ok {
                go(t, || format!("linear_filter constant kernel length {} of {}", n, d), X::Ok, || filter::linear_filter(&f, &vec![0.25; n]));
                go(t, || format!("linear_filter zero kernel length {} of {}", n, d), X::Ok, || filter::linear_filter(&f, &vec![0.0; n]));
            }
        }
    });
    e.par("long-kernels", "kernel lengths 131..=2700 (2-D) and 41..=600 (1-D, separable) on 3 layouts: exactly the squares of odd sizes and the odd, equal lengths accepted", 2, |t, i| {
        for (c, alpha) in [(1usize, false), (3, false), (4, true)] {
            let f = mix_img(2, 3, c, alpha, 3).f32();
            let d = format!("2x3x{}", c);
            let ker = |n: usize| -> Vec<f32> { (0..n).map(|k| (k % 17) as f32 * 0.5 - 1.0).collect() };
            for n in if i == 0 { 131..=2700usize } else { 41..=600 } {
                let k = ker(n);
                if i == 0 {
                    let r = (n as f64).sqrt().round() as usize;
                    let ok = n % 2 == 1 && r * r == n;
                    go(t, || format!("unseparable_filter length {} of {}", n, d), when(ok), || filter::unseparable_filter(&f, &k));
                    go(t, || format!("linear_filter length {} of {}", n, d), when(ok), || filter::linear_filter(&f, &k));
                } else {
                    let ok = n % 2 == 1;
                    go(t, || format!("filter_1d length {} of {}", n, d), when(ok), || filter::filter_1d(&f, &k, n % 4 == 1));
                    go(t, || format!("separable_filter lengths {} {} of {}", n, n, d), when(ok), || filter::separable_filter(&f, &k, &k));
                    go(t, || format!("separable_filter lengths {} {} of {}", n, n + 2, d), X::Err, || filter::separable_filter(&f, &k, &ker(n + 2)));
                    go(t, || format!("derivative_mask lengths {} {} of {}", n, n, d), when(ok && c == 1), || filter::derivative_mask(&f, &k, &k));
                }
            }
        }
    });
    e.par("vast-kernels", "1-D kernels of lengths around 2^8, 2^15, 2^16, 255^2 and 2^20, 2-D kernels of lengths around the squares of 127, 129, 255..257, 511..513, 1023..1025 and 4097, on tiny images: exactly the odd, equal lengths and the squares of odd sizes accepted", 2, |t, i| {
        for (w, h, c, alpha) in [(1usize, 1usize, 1usize, false), (2, 1, 3, true)] {
            let f = mix_img(w, h, c, alpha, 3).f32();
            let d = format!("{}x{}x{}", w, h, c);
            let ker = |n: usize| -> Vec<f32> { (0..n).map(|k| (k % 17) as f32 * 0.5 - 1.0).collect() };
            let near = |n: usize| (n - 2)..(n + 3);
            if i == 0 {
                for n in [256usize, 32768, 65025, 65536, 1 << 20].into_iter().flat_map(near) {
                    let k = ker(n);
                    go(t, || format!("box_filter {} of {}", n, d), when(n % 2 == 1), || filter::box_filter(&f, n as u32));
                    let ok = n % 2 == 1;
                    for v in [true, false] {
                        go(t, || format!("filter_1d length {} of {}", n, d), when(ok), || filter::filter_1d(&f, &k, v));
                    }
                    go(t, || format!("separable_filter lengths {} {} of {}", n, n, d), when(ok), || filter::separable_filter(&f, &k, &k));
                    go(t, || format!("separable_filter lengths {} {} of {}", n, n + 2, d), X::Err, || filter::separable_filter(&f, &k, &ker(n + 2)));
                    go(t, || format!("separable_filter lengths 3 {} of {}", n, d), X::Err, || filter::separable_filter(&f, &ker(3), &k));
                    go(t, || format!("derivative_mask lengths {} {} of {}", n, n, d), when(ok && c == 1), || filter::derivative_mask(&f, &k, &k));
                }
            } else {
                for n in (99u32..=103).chain(127..=129).chain(255..=257).chain(510..=514) {
                    go(t, || format!("weighted_avg_filter {} of {}", n, d), when(n % 2 == 1), || filter::weighted_avg_filter(&f, n, 3));
                    go(t, || format!("gaussian_blur {} of {}", n, d), when(n % 2 == 1), || filter::gaussian_blur(&f, n, 5.0));
                    if c == 1 {
                        go(t, || format!("laplacian_of_gaussian {} of {}", n, d), when(n % 2 == 1), || filter::laplacian_of_gaussian(&f, n, 5.0));
                    }
                }
                // lengths beyond 2^24, which no f32 holds, next to a square
                let r = 4097usize;
                for n in [r * r - 2, r * r, r * r + 2] {
                    if c == 1 {
                        let k = ker(n);
                        go(t, || format!("unseparable_filter length {} of {}", n, d), when(n == r * r), || filter::unseparable_filter(&f, &k));
                    }
                }
                for r in [127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025] {
                    for n in near(r * r) {
                        let k = ker(n);
                        let ok = n == r * r && r % 2 == 1;
                        go(t, || format!("unseparable_filter length {} of {}", n, d), when(ok), || filter::unseparable_filter(&f, &k));
                        if r < 500 || !ok {
                            go(t, || format!("linear_filter length {} of {}", n, d), when(ok), || filter::linear_filter(&f, &k));
                        }
                    }
                }
            }
        }
    });
    e.par("not-numbers", "8 shapes x 9 layouts: 4 NaNs (and the infinity outside the domain) in place of each bounded or non-negative real argument, alone and two at once: rejected; as an angle or a shear factor: no panic", nimg, |t, i| {
        let m = img(i);
        let (u, f, d) = (m.u8(), m.f32(), shw(&m));
        let isrgb = rgb(m.c, m.alpha);
        let nans = [f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(0xffff_ffff)];
        for a in nans {
            let n = a.to_bits();
            go(t, || format!("contrast {:#x} of {}", n, d), X::Err, || tone::contrast(&u, a));
            for max in [0u8, 1, 255] {
                go(t, || format!("gamma {:#x} max {} of {}", n, max, d), X::Err, || tone::gamma(&u, a, max));
            }
            if isrgb {
                go(t, || format!("contrast_lab {:#x} of {}", n, d), X::Err, || tone::contrast_lab(&u, a));
                for (al, p) in [(a, 1.0), (1.0, a), (a, a), (0.0, a), (a, 0.0)] {
                    for white in [White::D50, White::D65] {
                        go(t, || format!("histogram_equalization {:?} precision {:?} ({:#x}) of {}", al, p, n, d), X::Err, || tone::histogram_equalization(&u, al, &white, p));
                    }
                }
                for (r, sp) in [(a, 1.0), (1.0, a), (a, a)] {
                    go(t, || format!("bilateral_filter {:?} {:?} ({:#x}) of {}", r, sp, n, d), X::Err, || filter::bilateral_filter(&u, r, sp, Bilateral::Direct));
                }
            }
            go(t, || format!("superimpose weight {:#x} of {}", n, d), X::Err, || transform::superimpose(&f, &f, 0, 0, a));
            for (x, y) in [(a, 1.0), (1.0, a), (a, a), (a, 0.0), (0.0, a)] {
                for k in 0..4 {
                    go(t, || format!("scale method {} by {:?} {:?} ({:#x}) of {}", k, x, y, n, d), X::Err, || {
                        transform::scale(&f, x, y, match k { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos })
                    });
                }
                for size in [1u32, 3] {
                    go(t, || format!("scale_lanczos size {} by {:?} {:?} ({:#x}) of {}", size, x, y, n, d), X::Err, || transform::scale_lanczos(&f, x, y, size));
                }
                go(t, || format!("shear {:?} {:?} ({:#x}) of {}", x, y, n, d), X::Any, || transform::shear(&f, x, y));
            }
            go(t, || format!("rotate {:#x} of {}", n, d), X::Any, || transform::rotate(&f, a));
            for s in [1u32, 3, 5] {
                go(t, || format!("gaussian_fn({}, {:#x})", s, n), X::Err, || util::gaussian_fn(s as f32, a));
                go(t, || format!("generate_spatial_mat({}, {:#x})", s, n), X::Err, || util::generate_spatial_mat(s, a));
                go(t, || format!("generate_spatial_mat({}, {:#x})", s + 1, n), X::Err, || util::generate_spatial_mat(s + 1, a));
            }
        }
        for a in [f32::INFINITY, f32::NEG_INFINITY] {
            go(t, || format!("superimpose weight {} of {}", a, d), X::Err, || transform::superimpose(&f, &f, 0, 0, a));
            go(t, || format!("rotate {} of {}", a, d), X::Any, || transform::rotate(&f, a));
        }
        for (r, sp) in [(f32::NEG_INFINITY, 1.0), (1.0, f32::NEG_INFINITY), (f32::NEG_INFINITY, f32::NEG_INFINITY)] {
            if isrgb {
                go(t, || format!("bilateral_filter {} {} of {}", r, sp, d), X::Err, || filter::bilateral_filter(&u, r, sp, Bilateral::Direct));
            }
        }
        go(t, || "gaussian_fn with sigma -inf".into(), X::Err, || util::gaussian_fn(1.0, f32::NEG_INFINITY));
    });
    e.par("vast-windows", "alpha-trimmed means with radii 100, 127, 128, 129, 181, 182, 256 on tiny images: alphas around 2^8, 2^15, 2^16, 255^2 and the window size: exactly the even ones below it accepted", 7, |t, i| {
        let r = [100u32, 127, 128, 129, 181, 182, 256][i];
        let n = (2 * r + 1) * (2 * r + 1);
        for (w, h, c, alpha) in [(1usize, 1usize, 1usize, false), (2, 3, 4, true)] {
            let m = mix_img(w, h, c, alpha, 3);
            let (u, d) = (m.u8(), shw(&m));
            for a in [256u32, 32768, 65025, 65536, n, n + 256, n + 65536].into_iter().flat_map(|k| k - 3..=k + 3) {
                go(t, || format!("alpha_trimmed_mean_filter {} {} of {}", r, a, d), when(a % 2 == 0 && a < n), || filter::alpha_trimmed_mean_filter(&u, r, a));
            }
        }
    });
    e.par("blur-edge", "8 shapes x 9 layouts x sizes 0..=12 and u32 extremes that are even, weights from 0 to u32::MAX, sigmas 0.01..100; gradient operators on exactly the grayscale layouts", nimg, |t, i| {
        let m = img(i);
        let (f, d) = (m.f32(), shw(&m));
        for n in 0..=12u32 {
            let x = when(n % 2 == 1);
            go(t, || format!("box_filter {} of {}", n, d), x, || filter::box_filter(&f, n));
            for w in [0u32, 1, 2, 100, 65535, 1 << 24, 1 << 31, u32::MAX - 200, u32::MAX - 8, u32::MAX - 1, u32::MAX] {
                if n > 5 && w > 2 && w != u32::MAX {
                    continue;
                }
                let want = if n == 1 && w == 0 { X::Any } else { x };
                go(t, || format!("weighted_avg_filter {} weight {} of {}", n, w, d), want, || filter::weighted_avg_filter(&f, n, w));
            }
            for s in [0.01f32, 0.3, 1.0, 2.5, 100.0] {
                if n > 7 && s != 1.0 {
                    continue;
                }
                go(t, || format!("gaussian_blur {} sigma {} of {}", n, s, d), x, || filter::gaussian_blur(&f, n, s));
                if gray(m.c, m.alpha) {
                    go(t, || format!("laplacian_of_gaussian {} sigma {} of {}", n, s, d), x, || filter::laplacian_of_gaussian(&f, n, s));
                }
            }
        }
        go(t, || format!("sharpen {}", d), X::Ok, || filter::sharpen(&f));
        go(t, || format!("unsharp_masking {}", d), X::Ok, || filter::unsharp_masking(&f));
        let g = when(gray(m.c, m.alpha));
        go(t, || format!("prewitt {}", d), g, || filter::prewitt(&f));
        go(t, || format!("sobel {}", d), g, || filter::sobel(&f));
        for w in [0u32, 1, 2, 3, 1000, 1 << 31, u32::MAX] {
            go(t, || format!("sobel_weighted {} of {}", w, d), g, || filter::sobel_weighted(&f, w));
        }
        if gray(m.c, m.alpha) {
            go(t, || format!("laplacian {}", d), X::Ok, || filter::laplacian(&f));
        }
        go(t, || format!("normalize_laplacian {}", d), g, || filter::normalize_laplacian(&f));
        if m.c == 1 {
            let k: Image<f32> = Image::from_slice(m.w as u32, m.h as u32, 1, false, &vec![3.0; m.w * m.h]);
            go(t, || format!("normalize_laplacian of constant {}", d), X::Ok, || filter::normalize_laplacian(&k));
        }
    });
    e.par("threshold-residual", "8 shapes x 9 layouts: 5 thresholding modes x 9 thresholds x 5 maxima on exactly the grayscale layouts; residuals of image pairs equal or differing in width, height or channels", nimg, |t, i| {
        let m = img(i);
        let (f, d) = (m.f32(), shw(&m));
        for k in 0..5 {
            for th in [f32::NEG_INFINITY, f32::MIN, -1.0, 0.0, 127.5, 255.0, 256.0, f32::MAX, f32::INFINITY] {
                for mx in [-1.0f32, 0.0, 1.0, 255.0, f32::MAX] {
                    go(t, || format!("threshold mode {} at {} max {} of {}", k, th, mx, d), when(gray(m.c, m.alpha)), || {
                        filter::threshold(&f, th, mx, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv })
                    });
                }
            }
        }
        for j in 0..nimg {
            let n = img(j);
            let same = (n.w, n.h, n.c) == (m.w, m.h, m.c);
            let want = if same && n.alpha != m.alpha { X::Any } else { when(same) };
            go(t, || format!("residual of {} and {}", d, shw(&n)), want, || filter::residual(&f, &n.f32()));
        }
    });
    e.par("alpha-only", "images of one channel flagged as alpha, 8 shapes: no operation restricted to grayscale accepts them", SH.len(), |t, i| {
        let (w, h) = SH[i];
        let m = mix_img(w, h, 1, true, i);
        let (u, f, d) = (m.u8(), m.f32(), shw(&m));
        go(t, || format!("prewitt {}", d), X::Err, || filter::prewitt(&f));
        go(t, || format!("sobel {}", d), X::Err, || filter::sobel(&f));
        go(t, || format!("sobel_weighted {}", d), X::Err, || filter::sobel_weighted(&f, 3));
        go(t, || format!("derivative_mask {}", d), X::Err, || filter::derivative_mask(&f, &[1.0, 2.0, 1.0], &[-1.0, 0.0, 1.0]));
        go(t, || format!("normalize_laplacian {}", d), X::Err, || filter::normalize_laplacian(&f));
        for k in 0..5 {
            go(t, || format!("threshold mode {} {}", k, d), X::Err, || filter::threshold(&f, 10.0, 255.0, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv }));
        }
        for r in [0u32, 1, 2, 9] {
            go(t, || format!("erode {} {}", r, d), X::Err, || morphology::erode(&u, r));
            go(t, || format!("dilate {} {}", r, d), X::Err, || morphology::dilate(&u, r));
            go(t, || format!("majority {} {}", r, d), X::Err, || morphology::majority(&u, r));
            go(t, || format!("open {} {}", r, d), X::Err, || morphology::open(&u, r));
            go(t, || format!("close {} {}", r, d), X::Err, || morphology::close(&u, r));
            go(t, || format!("gradient {} {}", r, d), X::Err, || morphology::gradient(&u, r));
        }
    });
    e.par("rank", "8 shapes x 9 layouts: median of radius 0..=8, 20 and 60; alpha-trimmed mean of radius 0..=3 x every alpha 0..=52 and u32 extremes: exactly the even ones below the window size accepted", nimg, |t, i| {
        let m = img(i);
        let (u, d) = (m.u8(), shw(&m));
        for r in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 20, 60] {
            if r >= 20 && m.w * m.h > 100 {
                continue;
            }
            go(t, || format!("median_filter {} of {}", r, d), X::Ok, || filter::median_filter(&u, r));
            let n = (2 * r + 1) * (2 * r + 1);
            let mut al: Vec<u32> = if r <= 3 { (0..=52).collect() } else { vec![0, 1, 2] };
            al.extend([n.saturating_sub(2), n - 1, n, n + 1, 1 << 31, u32::MAX - 1, u32::MAX]);
            for a in al {
                go(t, || format!("alpha_trimmed_mean_filter radius {} alpha {} of {}", r, a, d), when(a % 2 == 0 && a < n), || filter::alpha_trimmed_mean_filter(&u, r, a));
            }
        }
    });
    e.par("bilateral", "8 shapes x RGB and RGBA: 6 x 6 range and spatial parameters, negative ones rejected", SH.len() * 2, |t, i| {
        let (w, h) = SH[i / 2];
        let m = mix_img(w, h, [3, 4][i % 2], i % 2 == 1, i);
        let (u, d) = (m.u8(), shw(&m));
        let ps = [(0.1, X::Ok), (1.0, X::Ok), (1.5, X::Ok), (3.0, X::Ok), (0.0, X::Any), (-TINY, X::Err), (-1.0, X::Err), (f32::MIN, X::Err)];
        for (r, rx) in ps {
            for (s, sx) in ps {
                let want = if rx == X::Err || sx == X::Err { X::Err } else if rx == X::Any || sx == X::Any { X::Any } else { X::Ok };
                go(t, || format!("bilateral_filter {} {} of {}", r, s, d), want, || filter::bilateral_filter(&u, r, s, Bilateral::Direct));
            }
        }
    });
    e.par("morphology", "8 shapes x 9 layouts x 6 operations x 13 radii up to u32::MAX: exactly the grayscale layouts accepted", nimg, |t, i| {
        let mut m = img(i);
        if gray(m.c, m.alpha) {
            m = m.map_colour(|v| if v > 127.0 { 255.0 } else { 0.0 });
        }
        let (u, d) = (m.u8(), shw(&m));
        let x = when(gray(m.c, m.alpha));
        for r in [0u32, 1, 2, 3, 8, 16, 17, 40, 1000, 65535, 65536, 1 << 31, u32::MAX] {
            go(t, || format!("erode {} of {}", r, d), x, || morphology::erode(&u, r));
            go(t, || format!("dilate {} of {}", r, d), x, || morphology::dilate(&u, r));
            go(t, || format!("majority {} of {}", r, d), x, || morphology::majority(&u, r));
            go(t, || format!("open {} of {}", r, d), x, || morphology::open(&u, r));
            go(t, || format!("close {} of {}", r, d), x, || morphology::close(&u, r));
            go(t, || format!("gradient {} of {}", r, d), x, || morphology::gradient(&u, r));
        }
    });
    e.par("generators", "kernel generators of size 0..=33 x 8 widths: exactly the odd sizes accepted; gaussian_fn and scale_channels at extremes", 34, |t, i| {
        let n = i as u32;
        let x = when(n % 2 == 1);
        for s in [0.01f32, 0.2, 0.5, 1.0, 2.0, 9.0, 100.0, 1e6] {
            go(t, || format!("generate_gaussian_kernel({}, {})", n, s), x, || util::generate_gaussian_kernel(n, s));
            go(t, || format!("generate_log_kernel({}, {})", n, s), x, || util::generate_log_kernel(n, s));
            go(t, || format!("generate_spatial_mat({}, {})", n, s), x, || util::generate_spatial_mat(n, s));
            go(t, || format!("generate_spatial_mat({}, -{})", n, s), X::Err, || util::generate_spatial_mat(n, -s));
            for p in [-1e9f32, -1.0, 0.0, 1.0, 1e9] {
                go(t, || format!("gaussian_fn({}, {})", p, s), X::Ok, || util::gaussian_fn(p, s));
                go(t, || format!("gaussian_fn({}, -{})", p, s), X::Err, || util::gaussian_fn(p, -s));
            }
        }
        go(t, || "gaussian_fn with sigma just below 0".into(), X::Err, || util::gaussian_fn(1.0, -TINY));
        let m = mix_img(5, 4, 3, false, i).f32();
        go(t, || "scale_channels".into(), X::Ok, || convert::scale_channels(&m, 0.0, 1.0, 255.0, i as f32));
        // neighbourhood kernels: length must be odd and match the neighbourhood
        #[cfg(not(feature = "parallel"))]
        for len in 0..=50usize {
            if n == 0 || n > 12 {
                break;
            }
            let k = vec![1.0f32; len];
            for (x, y) in [(0u32, 0u32), (4, 3), (2, 1)] {
                let mut out = vec![9.0];
                for v in [false, true] {
                    go(t, || format!("apply_1d_kernel length {} on {} pixels", len, n), when(len % 2 == 1 && len == n as usize), || util::apply_1d_kernel(&m.get_neighborhood_1d(x, y, n, v), &mut out, &k));
                }
                go(t, || format!("apply_2d_kernel length {} on {}x{} pixels", len, n, n), when(len % 2 == 1 && len == (n * n) as usize), || util::apply_2d_kernel(&m.get_neighborhood_2d(x, y, n), &mut out, &k));
            }
        }
        #[cfg(feature = "parallel")]
        for len in 0..=50usize {
            if n == 0 || n > 12 {
                break;
            }
            let k = vec![1.0f32; len];
            for (x, y) in [(0u32, 0u32), (4, 3), (2, 1)] {
                for v in [false, true] {
                    go(t, || format!("apply_1d_kernel length {} on {} pixels", len, n), when(len % 2 == 1 && len == n as usize), || util::apply_1d_kernel(&m.get_neighborhood_1d(x, y, n, v), &k));
                }
                go(t, || format!("apply_2d_kernel length {} on {}x{} pixels", len, n, n), when(len % 2 == 1 && len == (n * n) as usize), || util::apply_2d_kernel(&m.get_neighborhood_2d(x, y, n), &k));
            }
        }
    });
    // large images: indices and sums beyond 8 and 16 bits, long rows and columns
    let big = [(300usize, 257usize), (70000, 1), (1, 70000), (1031, 67), (1101, 1003)];
    let lay = [(1usize, false), (3, false), (4, true), (2, true)];
    let ops = vh::ops::ops();
    e.par("large", "every operation of the alphabet (one representative per function for the expensive ones) on 300x257, 70000x1, 1x70000 and 1031x67 images x 4 layouts, and one per function on a 1101x1003 image: no panic, and accepted exactly if accepted on a small image", ops.len() * big.len(), |t, k| {
        let op = &ops[k % ops.len()];
        let (w, h) = big[k / ops.len()];
        for (c, al) in lay {
            let (s, l) = (vh::ops::In::new(vh::ops::input(w.min(7), h.min(5), c, al, 0)), vh::ops::In::new(vh::ops::input(w, h, c, al, 1)));
            // (the bounding box of a long row rotated is larger than the memory)
            if w.max(h) == 70000 && ["rotate", "shear"].contains(&vh::ops::func(&op.name)) {
                continue;
            }
            if !op.fits(&s) || (op.cost == 1 && !op.rep && c > 1) || op.cost > 1 && (!op.rep || c > 1) {
                continue;
            }
            if w * h > 1_000_000 && (!op.rep || op.cost > 1 || c != if op.kind == vh::ops::Kind::Any || op.kind == vh::ops::Kind::Gray { 1 } else { 3 }) {
                continue;
            }
            t.case(
                || format!("{} on {}x{}x{}{}", op.name, w, h, c, if al { "a" } else { "" }),
                |t| {
                    t.seen(77, &[k as u8, (k >> 8) as u8, c as u8]);
                    let r = |o: &vh::ops::Out| matches!(o, vh::ops::Out::Rejected);
                    let x = t.imp(|| r(&(op.f)(&s)))?;
                    let y = t.imp(|| r(&(op.f)(&l)))?;
                    t.beat();
                    if x != y {
                        return Err(format!("{} here, but {} on a small image", if y { "rejected" } else { "accepted" }, if x { "rejected" } else { "accepted" }));
                    }
                    Ok(())
                },
            );
        }
    });
    // every channel count an image can have
    let all: Vec<vh::ops::Op> = vh::ops::ops().into_iter().chain(vh::ops::more_ops()).filter(|o| o.kind == vh::ops::Kind::Any && o.cost < 2 && !o.name.ends_with("of other channels")).collect();
    e.par("channels", "every operation without a colour requirement, over the extended argument grid, on 3x2 images with 6..=255 channels, with and without alpha: no panic, and accepted exactly if accepted with 5 channels", 250, |t, k| {
        let c = k + 6;
        for al in [false, true] {
            let (s, l) = (vh::ops::In::new(vh::ops::input(3, 2, 5, al, 0)), vh::ops::In::new(vh::ops::input(3, 2, c, al, 1)));
            for op in &all {
                t.case(
                    || format!("{} on 3x2x{}{}", op.name, c, if al { "a" } else { "" }),
                    |t| {
                        t.seen(78, &[c as u8, al as u8]);
                        let r = |o: &vh::ops::Out| matches!(o, vh::ops::Out::Rejected);
                        let x = t.imp(|| r(&(op.f)(&s)))?;
                        let y = t.imp(|| r(&(op.f)(&l)))?;
                        if x != y {
                            return Err(format!("{} here, but {} with 5 channels", if y { "rejected" } else { "accepted" }, if x { "rejected" } else { "accepted" }));
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    e.finish();
}
