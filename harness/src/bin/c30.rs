//! C30: numeric conversions between image types keep every representable value.
use imgproc_rs::convert;
use imgproc_rs::image::{BaseImage, Image, Number};
use vh::*;

fn dims<A: Number, B: Number>(a: &Image<A>, b: &Image<B>) -> Result<(), String> {
    if a.info() != b.info() || a.data().len() != b.data().len() {
        return Err(format!("converted image is {:?} with {} samples, source is {:?} with {}", b.info(), b.data().len(), a.info(), a.data().len()));
    }
    Ok(())
}

fn raw<V: Copy>(t: &mut T, tag: u64, v: &[V]) {
    let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) };
    t.seen(tag, b);
}

/// widening: every sample of the result is the f64 nearest to the source sample
macro_rules! widen {
    ($t:expr, $src:ty, $dst:ty, $w:expr, $h:expr, $c:expr, $al:expr, $v:expr) => {{
        let v: Vec<$src> = $v;
        $t.case(
            || format!("Image<{}> to Image<{}>, {}x{}x{}{} [{:?} ..]", stringify!($src), stringify!($dst), $w, $h, $c, if $al { "a" } else { "" }, &v[..v.len().min(6)]),
            |t| {
                raw(t, stringify!($src).len() as u64 * 7919 + stringify!($dst).len() as u64 + $c as u64 * 31, &v);
                let a: Image<$src> = Image::from_slice($w as u32, $h as u32, $c as u8, $al, &v);
                let b: Image<$dst> = t.imp(|| Image::<$dst>::from(a.clone()))?;
                dims(&a, &b)?;
                for i in 0..v.len() {
                    if b.data()[i] != v[i] as $dst {
                        return Err(format!("sample {} ({:?}) became {:?}", i, v[i], b.data()[i]));
                    }
                }
                Ok(())
            },
        )
    }};
}

/// nearest level, saturating; ties and the last float rounding free
fn level_ok(v: f64, got: u8, eps: f64) -> bool {
    if v.is_nan() {
        return true;
    }
    let w = v.clamp(0.0, 255.0);
    (got as f64 - w).abs() <= 0.5 + eps
}

macro_rules! narrow {
    ($t:expr, $src:ty, $w:expr, $h:expr, $c:expr, $al:expr, $v:expr) => {{
        let v: Vec<$src> = $v;
        $t.case(
            || format!("Image<{}> to Image<u8>, {}x{}x{}{} [{:?} ..]", stringify!($src), $w, $h, $c, if $al { "a" } else { "" }, &v[..v.len().min(6)]),
            |t| {
                raw(t, stringify!($src).len() as u64 * 104729 + $c as u64 * 31 + stringify!($src).as_bytes()[1] as u64, &v);
                let a: Image<$src> = Image::from_slice($w as u32, $h as u32, $c as u8, $al, &v);
                let b: Image<u8> = t.imp(|| Image::<u8>::from(a.clone()))?;
                dims(&a, &b)?;
                for i in 0..v.len() {
                    if !level_ok(v[i] as f64, b.data()[i], if stringify!($src) == "f64" { 1e-9 } else { 1e-5 }) {
                        return Err(format!("sample {} ({:?}) became level {}", i, v[i], b.data()[i]));
                    }
                }
                Ok(())
            },
        )
    }};
}

fn edge_ints() -> Vec<u128> {
    let mut v = vec![0u128, 3, 5, 7, 10, 100, 255];
    for k in 0..128 {
        let p = 1u128 << k;
        for d in 0..3u128 {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d));
            v.push(p | (p >> 1) | d);
            v.push((p - 1) ^ (d << (k / 2)));
        }
        // around the 53-bit precision limit relative to the leading bit
        if k >= 54 {
            for d in 1..4u128 {
                v.push(p + (d << (k - 54)));
                v.push(p + (d << (k - 53)));
                v.push(p + (d << (k - 53)) - 1);
            }
        }
    }
    v
}

fn edge_floats() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64, 1e30, -1e30, 65535.0, 65536.0, 4294967296.0];
    for k in -4..=260i32 {
        for f in [0.0, 0.25, 0.49, 0.499999, 0.5, 0.500001, 0.51, 0.75, 0.999999] {
            v.push(k as f64 + f);
            v.push(-(k as f64 + f));
            v.push(512.0 + k as f64 + f);
        }
        let t = k as f64 + 0.5;
        v.push(f64::from_bits(t.to_bits() + 1));
        v.push(f64::from_bits(t.to_bits() - 1));
        let u = t as f32;
        v.push(f32::from_bits(u.to_bits() + 1) as f64);
        v.push(f32::from_bits(u.to_bits() - 1) as f64);
        for d in [1e-5, 1e-6, 1e-7, 1e-8] {
            v.push(t - d);
            v.push(t + d);
        }
    }
    v
}

const SHAPES: [(usize, usize); 10] = [(1, 1), (2, 1), (1, 2), (3, 5), (17, 4), (64, 64), (257, 129), (1031, 17), (1, 3001), (20000, 1)];

fn main() {
    let e = Engine::new("C30");

    // all 8-bit values x layouts x shapes: there and back is the identity
    let lay: Vec<(usize, bool)> = (1..=6).flat_map(|c| [(c, false), (c, true)]).filter(|&(c, a)| c > 1 || !a).collect();
    let l = lay.clone();
    e.par(
        "u8-round-trip",
        "all 256 levels x 11 layouts x 10 shapes (up to 33153 pixels), 3 contents: u8 -> f32 -> u8 and u8 -> f64 -> u8 (and u8 -> f32 -> f64 -> u8) are the identity, every intermediate sample exact",
        lay.len() * SHAPES.len(),
        move |t, i| {
            let (c, al) = l[i % l.len()];
            let (w, h) = SHAPES[i / l.len()];
            for content in 0..3 {
                let v: Vec<u8> = (0..w * h * c)
                    .map(|j| match content {
                        0 => (j + j / 256) as u8,
                        1 => label_u8(j, i),
                        _ => mix_u8(j, i),
                    })
                    .collect();
                t.case(
                    || format!("u8 round trip, {}x{}x{}{} content {}", w, h, c, if al { "a" } else { "" }, content),
                    |t| {
                        t.seen((i * 3 + content) as u64, &v);
                        let a: Image<u8> = Image::from_slice(w as u32, h as u32, c as u8, al, &v);
                        let f: Image<f32> = t.imp(|| a.clone().into())?;
                        dims(&a, &f)?;
                        let g: Image<f64> = t.imp(|| a.clone().into())?;
                        dims(&a, &g)?;
                        let fg: Image<f64> = t.imp(|| f.clone().into())?;
                        dims(&a, &fg)?;
                        for j in 0..v.len() {
                            if f.data()[j] != v[j] as f32 || g.data()[j] != v[j] as f64 || fg.data()[j] != v[j] as f64 {
                                return Err(format!("sample {} (level {}) became {} as f32, {} as f64, {} via f32", j, v[j], f.data()[j], g.data()[j], fg.data()[j]));
                            }
                        }
                        for (n, b) in [("f32", t.imp(|| Image::<u8>::from(f.clone()))?), ("f64", t.imp(|| Image::<u8>::from(g.clone()))?), ("f32 and f64", t.imp(|| Image::<u8>::from(fg.clone()))?)] {
                            img_eq_u8(&b, w, h, c, al, &v).map_err(|m| format!("via {}: {}", n, m))?;
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    // every single level alone in a 1x1 image
    e.par("u8-single", "every level alone: u8 -> f32/f64 and back", 256, |t, i| {
        for &(c, al) in &LAYOUTS {
            widen!(t, u8, f32, 1, 1, c, al, vec![i as u8; c]);
            widen!(t, u8, f64, 1, 1, c, al, vec![i as u8; c]);
            narrow!(t, f32, 1, 1, c, al, vec![i as f32; c]);
            narrow!(t, f64, 1, 1, c, al, vec![i as f64; c]);
        }
    });
    // u16: all values
    e.par("u16", "all 65536 values, as one channel, three channels and two with alpha", 64, |t, i| {
        let v: Vec<u16> = (0..1024).map(|j| (i * 1024 + j) as u16).collect();
        widen!(t, u16, f64, 1024, 1, 1, false, v.clone());
        widen!(t, u16, f64, 16, 32, 2, true, v.clone());
        widen!(t, u16, f64, 31, 11, 3, false, v[..1023].to_vec());
        widen!(t, u16, f64, 16, 16, 4, true, v);
    });
    // wider integers at every power of two and rounding boundary
    let ints = edge_ints();
    let iv = ints.clone();
    e.par(
        "wide-int",
        "u32, u64, usize and u128 samples at every power of two, its neighbours, and rounding boundaries of the 53-bit mantissa, each conversion exact or to the nearest double",
        ints.len().div_ceil(12) * 3,
        move |t, i| {
            let (c, al) = [(1, false), (2, true), (3, false)][i % 3];
            let k = i / 3;
            let v: Vec<u128> = (0..12).map(|j| iv[(k * 12 + j) % iv.len()]).collect();
            let (w, h) = (12 / c / [1, 2][(c != 3 && k % 2 == 1) as usize], [1, 2][(c != 3 && k % 2 == 1) as usize]);
            widen!(t, u128, f64, w, h, c, al, v.clone());
            widen!(t, u64, f64, w, h, c, al, v.iter().map(|&x| x as u64).collect());
            widen!(t, usize, f64, w, h, c, al, v.iter().map(|&x| x as usize).collect());
            widen!(t, u32, f64, w, h, c, al, v.iter().map(|&x| x as u32).collect());
        },
    );
    let step: u64 = e.b(1 << 12, 1);
    let nt = 1024usize;
    e.par(
        "u32-sweep",
        if e.thorough() { "all 2^32 u32 samples to f64" } else { "every 4096-th u32 sample and its low-bit pattern to f64 (thorough: all 2^32)" },
        nt,
        move |t, i| {
            let span = (1u64 << 32) / nt as u64;
            let lo = i as u64 * span;
            let mut x = lo;
            while x < lo + span {
                let v: Vec<u32> = (0..4096u64).map(|j| (x + j * step + if step > 1 { j } else { 0 }) as u32).collect();
                widen!(t, u32, f64, 4096, 1, 1, false, v);
                x += 4096 * step;
            }
        },
    );
    // float -> u8
    let fl = edge_floats();
    let f2 = fl.clone();
    e.par(
        "round-saturate",
        "f32 and f64 to u8 at every integer and half-integer of [-260, 772] with neighbouring representable values, extremes and infinities, x layouts",
        fl.len().div_ceil(12) * 4,
        move |t, i| {
            let (c, al) = [(1, false), (2, true), (3, false), (4, true)][i % 4];
            let k = i / 4;
            let v: Vec<f64> = (0..12).map(|j| f2[(k * 12 + j) % f2.len()]).collect();
            narrow!(t, f64, 12 / c, 1, c, al, v.clone());
            narrow!(t, f32, 1, 12 / c, c, al, v.iter().map(|&x| x as f32).collect());
        },
    );
    let fstep: u64 = e.b(1 << 10, 1);
    e.par(
        "f32-sweep",
        if e.thorough() { "all 2^32 f32 bit patterns: to f64 exactly (NaN to NaN) and to u8" } else { "every 1024-th f32 bit pattern: to f64 exactly (NaN to NaN) and to u8 (thorough: all 2^32)" },
        nt,
        move |t, i| {
            let span = (1u64 << 32) / nt as u64;
            let lo = i as u64 * span;
            let mut x = lo;
            while x < lo + span {
                let v: Vec<f32> = (0..4096u64).map(|j| f32::from_bits((x + j * fstep) as u32)).collect();
                x += 4096 * fstep;
                t.case(
                    || format!("f32 patterns {:#x}.. step {}", v[0].to_bits(), fstep),
                    |t| {
                        raw(t, 5, &v[..1]);
                        let a: Image<f32> = Image::from_slice(64, 64, 1, false, &v);
                        let b: Image<f64> = t.imp(|| a.clone().into())?;
                        let u: Image<u8> = t.imp(|| a.clone().into())?;
                        dims(&a, &b)?;
                        dims(&a, &u)?;
                        for j in 0..v.len() {
                            let ok = if v[j].is_nan() { b.data()[j].is_nan() } else { b.data()[j] == v[j] as f64 };
                            if !ok || !level_ok(v[j] as f64, u.data()[j], 1e-5) {
                                return Err(format!("{} ({:#x}) became {} as f64 and level {}", v[j], v[j].to_bits(), b.data()[j], u.data()[j]));
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    // affine rescaling
    let pts: [f32; 13] = [-1000.0, -255.0, -128.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 100.0, 127.5, 255.0, 65535.0];
    e.par(
        "scale-channels",
        "all source ranges [a, b] and target ranges [c, d] with a != b from 13 bounds (reversed and degenerate targets included), 11 positions in the range plus 2 outside, x layouts",
        13 * 13,
        move |t, i| {
            let (a, b) = (pts[i / 13], pts[i % 13]);
            if a == b {
                return;
            }
            for &c in &pts {
                for &d in &pts {
                    for &(ch, al) in &[(1usize, false), (2, true), (3, false), (4, true)] {
                        t.case(
                            || format!("scale_channels [{}, {}] onto [{}, {}], {} channels alpha {}", a, b, c, d, ch, al),
                            |t| {
                                let v: Vec<f32> = (-1..=12).map(|k| match k { 0 => a, 10 => b, _ => a + (b - a) * k as f32 / 10.0 }).take(12).collect();
                                t.seen_f32((ch * 2 + al as usize) as u64, &[a, b, c, d]);
                                let im: Image<f32> = Image::from_slice((12 / ch) as u32, 1, ch as u8, al, &v);
                                let r = t.imp(|| convert::scale_channels(&im, a, c, b, d))?.map_err(|e| format!("rejected: {:?}", e))?;
                                dims(&im, &r)?;
                                if im.data() != v.as_slice() {
                                    return Err("input changed".into());
                                }
                                let m = (c as f64).abs().max((d as f64).abs());
                                for (k, &x) in v.iter().enumerate() {
                                    let want = c as f64 + (x as f64 - a as f64) * (d as f64 - c as f64) / (b as f64 - a as f64);
                                    let err = (r.data()[k] as f64 - want).abs();
                                    // end points: a few units in the last place
                                    let tol = if x == a || x == b { 4e-7 * m } else { 4e-6 * (m + (d as f64 - c as f64).abs()) + 2e-6 * (a.abs().max(b.abs()) as f64) * ((d - c) / (b - a)).abs() as f64 };
                                    if err > tol {
                                        return Err(format!("{} became {} but should be {}", x, r.data()[k], want));
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        },
    );
    // 8-bit <-> float scales
    let mut scales: Vec<u32> = (1..=e.b(1100u32, 70000)).collect();
    for k in 10..32 {
        for d in 0..3 {
            scales.push((1u32 << k) + d);
            scales.push((1u32 << k) - d);
        }
    }
    scales.extend([u32::MAX, u32::MAX - 1, 1_000_000, 999_999_999]);
    let ns = scales.len();
    e.par(
        "u8-scale",
        "every scale 1..=1100 (thorough 70000) and around every power of two up to 2^32-1: all 256 levels map to level*scale/255 and back to themselves; every quarter level and out-of-range value rounds and saturates",
        ns,
        move |t, i| {
            let s = scales[i];
            for &(ch, al) in &[(1usize, false), (2, true), (4, true)] {
                t.case(
                    || format!("8-bit/float scale {}, {} channels alpha {}", s, ch, al),
                    |t| {
                        t.seen(s as u64, &[ch as u8]);
                        let v: Vec<u8> = (0..256).map(|k| k as u8).collect();
                        let a: Image<u8> = Image::from_slice((256 / ch) as u32, 1, ch as u8, al, &v);
                        let f = t.imp(|| convert::u8_to_f32_scale(&a, s))?;
                        dims(&a, &f)?;
                        for k in 0..256 {
                            let want = k as f64 * s as f64 / 255.0;
                            if (f.data()[k] as f64 - want).abs() > 1e-6 * want {
                                return Err(format!("level {} became {} but should be {}", k, f.data()[k], want));
                            }
                        }
                        if f.data()[0] != 0.0 {
                            return Err("level 0 is not 0".into());
                        }
                        let b = t.imp(|| convert::f32_to_u8_scale(&f, s))?;
                        img_eq_u8(&b, 256 / ch, 1, ch, al, &v)?;
                        if a.data() != v.as_slice() {
                            return Err("input changed".into());
                        }
                        let g: Vec<f32> = (-20..=277i32).flat_map(|k| [0.0, 0.25, 0.498, 0.502].map(|o| ((k as f64 + o) * s as f64 / 255.0) as f32)).take(1188).collect();
                        let gi: Image<f32> = Image::from_slice((1188 / ch) as u32, 1, ch as u8, al, &g);
                        let u = t.imp(|| convert::f32_to_u8_scale(&gi, s))?;
                        dims(&gi, &u)?;
                        for k in 0..g.len() {
                            let lv = g[k] as f64 * 255.0 / s as f64;
                            if (u.data()[k] as f64 - lv.clamp(0.0, 255.0)).abs() > 0.5 + 1e-4 {
                                return Err(format!("{} of scale {} became level {}", g[k], s, u.data()[k]));
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    // large images through every conversion
    e.par("large", "11 shapes up to 1.1 million pixels x 4 layouts through scale_channels and the 8-bit scales, sample by sample", SHAPES.len() * 4 + 4, |t, i| {
        let (w, h) = if i / 4 < SHAPES.len() { SHAPES[i / 4] } else { (1101, 1003) };
        let (c, al) = LAYOUTS4[i % 4];
        let m = label_img(w, h, c, al, i);
        t.case(
            || format!("conversions of {}x{}x{}", w, h, c),
            |t| {
                let (u, f) = (m.u8(), m.f32());
                t.seen(i as u64, u.data());
                let r = t.imp(|| convert::scale_channels(&f, 0.0, -1.0, 255.0, 1.0))?.map_err(|e| format!("rejected: {:?}", e))?;
                img_close(&r, &m.map(|v| v / 127.5 - 1.0), 1e-6, 0.0)?;
                let s = t.imp(|| convert::u8_to_f32_scale(&u, 100))?;
                img_close(&s, &m.map(|v| v / 2.55), 1e-5, 1e-6)?;
                let b = t.imp(|| convert::f32_to_u8_scale(&s, 100))?;
                img_eq_u8(&b, w, h, c, al, u.data())
            },
        );
    });
    e.finish();
}
