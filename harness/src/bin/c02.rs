//! C02: mapping and applying functions touch exactly the intended channels.
use imgproc_rs::image::{BaseImage, Image, Pixel};
use std::cell::RefCell;
use vh::*;

type Calls = RefCell<Vec<Vec<u32>>>;

fn sorted(c: &Calls) -> Vec<Vec<u32>> {
    let mut v = c.borrow().clone();
    v.sort();
    v
}
fn want_calls(mut v: Vec<Vec<u32>>, c: &Calls, what: &str) -> Result<(), String> {
    v.sort();
    let g = sorted(c);
    if g != v {
        let miss = v.iter().find(|x| v.iter().filter(|y| y == x).count() != g.iter().filter(|y| y == x).count());
        return Err(format!("{}: called {} times, expected {}; e.g. {:?} is covered a wrong number of times", what, g.len(), v.len(), miss));
    }
    Ok(())
}

fn eq<S: PartialEq + std::fmt::Debug + imgproc_rs::image::Number>(i: &Image<S>, w: usize, h: usize, c: usize, alpha: bool, d: &[S], what: &str) -> Result<(), String> {
    if i.info().whca() != (w as u32, h as u32, c as u8, alpha) {
        return Err(format!("{}: result claims {:?}, expected {}x{}x{} alpha={}", what, i.info(), w, h, c, alpha));
    }
    if i.data() != d {
        let p = (0..d.len().max(i.data().len())).find(|&p| i.data().get(p) != d.get(p)).unwrap();
        return Err(format!("{}: sample {} is {:?}, expected {:?}", what, p, i.data().get(p), d.get(p)));
    }
    Ok(())
}

fn shape(t: &mut T, w: usize, h: usize, c: usize, alpha: bool, pat: usize) {
    let n = w * h;
    // labelled samples; a constant image; runs of equal pixels; equal pixels with own alpha
    let d: Vec<u32> = (0..n * c).map(|i| match pat {
        0 => i * 7 + 3,
        1 => 5,
        2 => i / c / 3 * 100 + i % c,
        // zero and largest samples: every third pixel all zero, every fifth all largest, zero colours, zero alpha
        4 => match i / c % 15 {
            1 | 4 | 7 | 13 => 0,
            2 | 5 | 10 => u32::MAX as usize,
            3 | 8 => if i % c == c - 1 { 9 } else { 0 },
            6 | 11 => if i % c == c - 1 { 0 } else { u32::MAX as usize },
            9 => if i % c == 0 { 1 } else { 0 },
            _ => i,
        },
        _ => if i % c == c - 1 { i } else { i % c + i / c / 40 },
    } as u32).collect();
    let src = || Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
    let is_a = |i: usize| alpha && i % c == c - 1;
    let f = |v: u32| v.wrapping_mul(3) ^ 0x1000_0000;
    let g = |v: u32| v.wrapping_mul(5) ^ 0x2000_0000;
    let name = |s: &str| format!("{} on {}x{}x{} alpha={} samples {}", s, w, h, c, alpha, ["all distinct", "all equal", "in runs of equal pixels", "equal colours with distinct alpha", "zero and largest"][pat]);
    let unchanged = |i: &Image<u32>| eq(i, w, h, c, alpha, &d, "source image");

    // channels
    t.case(|| name("map_channels"), |t| {
        let img = src();
        t.seen(1, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let calls: Calls = RefCell::new(vec![]);
        let r = t.imp(|| img.map_channels(|v| { calls.borrow_mut().push(vec![v]); f(v) }))?;
        eq(&r, w, h, c, alpha, &d.iter().map(|&v| f(v)).collect::<Vec<_>>(), "map_channels")?;
        want_calls(d.iter().map(|&v| vec![v]).collect(), &calls, "map_channels")?;
        unchanged(&img)?;
        // type-changing form
        let r = t.imp(|| img.map_channels(|v| v as f64 * 0.5))?;
        eq(&r, w, h, c, alpha, &d.iter().map(|&v| v as f64 * 0.5).collect::<Vec<_>>(), "map_channels to f64")
    });
    t.case(|| name("map_channels_if_alpha"), |t| {
        let img = src();
        t.seen(2, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let (cf, cg): (Calls, Calls) = (RefCell::new(vec![]), RefCell::new(vec![]));
        let r = t.imp(|| img.map_channels_if_alpha(|v| { cf.borrow_mut().push(vec![v]); f(v) }, |v| { cg.borrow_mut().push(vec![v]); g(v) }))?;
        eq(&r, w, h, c, alpha, &d.iter().enumerate().map(|(i, &v)| if is_a(i) { g(v) } else { f(v) }).collect::<Vec<_>>(), "map_channels_if_alpha")?;
        want_calls(d.iter().enumerate().filter(|(i, _)| !is_a(*i)).map(|(_, &v)| vec![v]).collect(), &cf, "first function")?;
        want_calls(d.iter().enumerate().filter(|(i, _)| is_a(*i)).map(|(_, &v)| vec![v]).collect(), &cg, "second function")?;
        unchanged(&img)
    });
    t.case(|| name("apply_channels"), |t| {
        let mut img = src();
        t.seen(3, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let calls: Calls = RefCell::new(vec![]);
        t.imp(|| img.apply_channels(|v| { calls.borrow_mut().push(vec![v]); f(v) }))?;
        eq(&img, w, h, c, alpha, &d.iter().map(|&v| f(v)).collect::<Vec<_>>(), "apply_channels")?;
        want_calls(d.iter().map(|&v| vec![v]).collect(), &calls, "apply_channels")
    });
    t.case(|| name("apply_channels_if_alpha"), |t| {
        let mut img = src();
        t.seen(4, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let (cf, cg): (Calls, Calls) = (RefCell::new(vec![]), RefCell::new(vec![]));
        t.imp(|| img.apply_channels_if_alpha(|v| { cf.borrow_mut().push(vec![v]); f(v) }, |v| { cg.borrow_mut().push(vec![v]); g(v) }))?;
        eq(&img, w, h, c, alpha, &d.iter().enumerate().map(|(i, &v)| if is_a(i) { g(v) } else { f(v) }).collect::<Vec<_>>(), "apply_channels_if_alpha")?;
        want_calls(d.iter().enumerate().filter(|(i, _)| !is_a(*i)).map(|(_, &v)| vec![v]).collect(), &cf, "first function")?;
        want_calls(d.iter().enumerate().filter(|(i, _)| is_a(*i)).map(|(_, &v)| vec![v]).collect(), &cg, "second function")
    });

    // pixels, with every output channel count
    let nc = if alpha { c - 1 } else { c };
    let outs: Vec<usize> = if n <= 6 && pat == 0 { (0..=5).chain([6, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 200, 254]).collect() } else { (0..=5).collect() };
    for k in outs {
        t.case(|| name(&format!("map_pixels to {} channels", k)), |t| {
            let img = src();
            t.seen(5, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8, k as u8]);
            let calls: Calls = RefCell::new(vec![]);
            let r = t.imp(|| img.map_pixels(|p, o: &mut Vec<u32>| {
                calls.borrow_mut().push(p.to_vec());
                for j in 0..k { o.push(f(p[j % p.len()]) + j as u32); }
            }))?;
            let want: Vec<u32> = d.chunks(c).flat_map(|p| (0..k).map(|j| f(p[j % c]) + j as u32).collect::<Vec<_>>()).collect();
            eq(&r, w, h, k, alpha, &want, "map_pixels")?;
            want_calls(d.chunks(c).map(|p| p.to_vec()).collect(), &calls, "map_pixels")?;
            unchanged(&img)
        });
        t.case(|| name(&format!("map_pixels_if_alpha to {} (+alpha) channels", k)), |t| {
            let img = src();
            t.seen(6, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8, k as u8]);
            let (cf, cg): (Calls, Calls) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let r = t.imp(|| img.map_pixels_if_alpha(|p, o: &mut Vec<u32>| {
                cf.borrow_mut().push(p.to_vec());
                for j in 0..k { o.push(p.iter().fold(j as u32, |a, &v| a.wrapping_mul(31).wrapping_add(f(v)))); }
            }, |a| { cg.borrow_mut().push(vec![a]); g(a) }))?;
            let mut want = Vec::new();
            for p in d.chunks(c) {
                for j in 0..k { want.push(p[..nc].iter().fold(j as u32, |a, &v| a.wrapping_mul(31).wrapping_add(f(v)))); }
                if alpha { want.push(g(p[c - 1])); }
            }
            eq(&r, w, h, k + alpha as usize, alpha, &want, "map_pixels_if_alpha")?;
            want_calls(d.chunks(c).map(|p| p[..nc].to_vec()).collect(), &cf, "first function")?;
            want_calls(if alpha { d.chunks(c).map(|p| vec![p[c - 1]]).collect() } else { vec![] }, &cg, "second function")?;
            unchanged(&img)
        });
    }
    t.case(|| name("apply_pixels"), |t| {
        let mut img = src();
        t.seen(7, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let calls: Calls = RefCell::new(vec![]);
        t.imp(|| img.apply_pixels(|p, o| { calls.borrow_mut().push(p.to_vec()); for j in 0..p.len() { o.push(f(p[p.len() - 1 - j]) + j as u32); } }))?;
        let want: Vec<u32> = d.chunks(c).flat_map(|p| (0..c).map(|j| f(p[c - 1 - j]) + j as u32).collect::<Vec<_>>()).collect();
        eq(&img, w, h, c, alpha, &want, "apply_pixels")?;
        want_calls(d.chunks(c).map(|p| p.to_vec()).collect(), &calls, "apply_pixels")
    });
    t.case(|| name("apply_pixels_if_alpha"), |t| {
        let mut img = src();
        t.seen(8, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8]);
        let (cf, cg): (Calls, Calls) = (RefCell::new(vec![]), RefCell::new(vec![]));
        t.imp(|| img.apply_pixels_if_alpha(|p, o| { cf.borrow_mut().push(p.to_vec()); for j in 0..p.len() { o.push(f(p[p.len() - 1 - j]) + j as u32); } },
            |a| { cg.borrow_mut().push(vec![a]); g(a) }))?;
        let mut want = Vec::new();
        for p in d.chunks(c) {
            for j in 0..nc { want.push(f(p[nc - 1 - j]) + j as u32); }
            if alpha { want.push(g(p[c - 1])); }
        }
        eq(&img, w, h, c, alpha, &want, "apply_pixels_if_alpha")?;
        want_calls(d.chunks(c).map(|p| p[..nc].to_vec()).collect(), &cf, "first function")?;
        want_calls(if alpha { d.chunks(c).map(|p| vec![p[c - 1]]).collect() } else { vec![] }, &cg, "second function")
    });
    for ch in 0..c {
        t.case(|| name(&format!("edit_channel {}", ch)), |t| {
            let mut img = src();
            t.seen(9, &[pat as u8, w as u8, h as u8, c as u8, alpha as u8, ch as u8]);
            let calls: Calls = RefCell::new(vec![]);
            t.imp(|| img.edit_channel(|v| { calls.borrow_mut().push(vec![v]); f(v) }, ch))?;
            eq(&img, w, h, c, alpha, &d.iter().enumerate().map(|(i, &v)| if i % c == ch { f(v) } else { v }).collect::<Vec<_>>(), "edit_channel")?;
            want_calls(d.iter().enumerate().filter(|(i, _)| i % c == ch).map(|(_, &v)| vec![v]).collect(), &calls, "edit_channel")
        });
    }
    // a function that changes nothing leaves everything (idempotence of identity, repeated twice)
    t.case(|| name("identity twice"), |t| {
        let mut img = src();
        for _ in 0..2 {
            t.imp(|| { img.apply_channels(|v| v); img.apply_channels_if_alpha(|v| v, |v| v); img.apply_pixels(|p, o| o.extend(p)); img.apply_pixels_if_alpha(|p, o| o.extend(p), |a| a) })?;
        }
        unchanged(&img)
    });
}

/// images with more samples than any plausible threshold; calls are counted, not recorded
fn huge(t: &mut T, w: usize, h: usize, c: usize, alpha: bool, op: usize) {
    use std::cell::Cell;
    let n = w * h;
    let nc = c - alpha as usize;
    let d: Vec<u32> = (0..n * c).map(|i| i as u32 * 7 + 3).collect();
    let is_a = |i: usize| alpha && i % c == c - 1;
    // the sum of everything a function was called with stands for the multiset of calls
    let (nf, sf, ng, sg) = (Cell::new(0u64), Cell::new(0u64), Cell::new(0u64), Cell::new(0u64));
    let mixw = |v: u32| (v as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) >> 7;
    let f = |v: u32| {
        nf.set(nf.get() + 1);
        sf.set(sf.get().wrapping_add(mixw(v)));
        v.wrapping_mul(3) ^ 0x1000_0000
    };
    let g = |v: u32| {
        ng.set(ng.get() + 1);
        sg.set(sg.get().wrapping_add(mixw(v)));
        v.wrapping_mul(5) ^ 0x2000_0000
    };
    let names = ["map_channels", "map_channels_if_alpha", "apply_channels", "apply_channels_if_alpha", "map_pixels", "map_pixels_if_alpha", "apply_pixels", "apply_pixels_if_alpha", "edit_channel first", "edit_channel last"];
    t.case(|| format!("{} on {}x{}x{} alpha={}", names[op], w, h, c, alpha), |t| {
        t.seen(30 + op as u64, &[w as u8, h as u8, c as u8, alpha as u8]);
        let mut img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
        let mut oc = c;
        // role of a sample: 0 the first function, 1 the second, 2 none
        let (out, role): (Image<u32>, Box<dyn Fn(usize) -> u8>) = match op {
            0 => (t.imp(|| img.map_channels(f))?, Box::new(|_| 0)),
            1 => (t.imp(|| img.map_channels_if_alpha(f, g))?, Box::new(|i| is_a(i) as u8)),
            2 => (t.imp(|| { img.apply_channels(f); img })?, Box::new(|_| 0)),
            3 => (t.imp(|| { img.apply_channels_if_alpha(f, g); img })?, Box::new(|i| is_a(i) as u8)),
            4 => (t.imp(|| img.map_pixels(|p, o: &mut Vec<u32>| o.extend(p.iter().map(|&v| f(v)))))?, Box::new(|_| 0)),
            5 => (t.imp(|| img.map_pixels_if_alpha(|p, o: &mut Vec<u32>| o.extend(p.iter().map(|&v| f(v))), g))?, Box::new(|i| is_a(i) as u8)),
            6 => (t.imp(|| { img.apply_pixels(|p, o| o.extend(p.iter().map(|&v| f(v)))); img })?, Box::new(|_| 0)),
            7 => (t.imp(|| { img.apply_pixels_if_alpha(|p, o| o.extend(p.iter().map(|&v| f(v))), g); img })?, Box::new(|i| is_a(i) as u8)),
            8 => (t.imp(|| { img.edit_channel(f, 0); img })?, Box::new(|i| if i % c == 0 { 0 } else { 2 })),
            _ => (t.imp(|| { img.edit_channel(f, c - 1); img })?, Box::new(|i| if i % c == c - 1 { 0 } else { 2 })),
        };
        if op == 5 {
            oc = nc + alpha as usize;
        }
        let want: Vec<u32> = d.iter().enumerate().map(|(i, &v)| match role(i) { 0 => v.wrapping_mul(3) ^ 0x1000_0000, 1 => v.wrapping_mul(5) ^ 0x2000_0000, _ => v }).collect();
        eq(&out, w, h, oc, alpha, &want, names[op])?;
        let mut sums = [(0u64, 0u64); 3];
        for (i, &v) in d.iter().enumerate() {
            let s = &mut sums[role(i) as usize];
            *s = (s.0 + 1, s.1.wrapping_add(mixw(v)));
        }
        if sums[0] != (nf.get(), sf.get()) || sums[1] != (ng.get(), sg.get()) {
            return Err(format!("first function called {} times (expected {}), second {} (expected {}), or not once per sample", nf.get(), sums[0].0, ng.get(), sums[1].0));
        }
        Ok(())
    });
}

fn main() {
    let e = Engine::new("C02");
    let hl = [(1101usize, 1003usize, 1usize, false), (1003, 701, 3, false), (701, 500, 4, true), (1, (1 << 20) + 7, 2, true), (70001, 5, 6, true), (4500, 1, 255, false)];
    e.par("maps/huge", "6 images of 1.1 to 2.1 million samples x 10 map/apply/edit operations", hl.len() * 10, |t, i| {
        let (w, h, c, a) = hl[i / 10];
        huge(t, w, h, c, a, i % 10);
    });
    let mut sh = shapes(e.b(9, 18), e.b(9, 18));
    sh.extend([(0, 0), (0, 3), (3, 0), (31, 17), (257, 2), (2, 257), (1, 300), (300, 1), (64, 65)]);
    if e.thorough() {
        sh.extend([(300, 256), (256, 300), (1000, 7), (7, 1000)]);
    }
    let lay: Vec<(usize, bool)> = vec![(1, false), (1, true), (2, false), (2, true), (3, false), (3, true), (4, false), (4, true), (5, false), (5, true), (6, true), (16, true)];
    e.par("maps", &format!("{} shapes (incl. empty) x 12 layouts x every map/apply/edit operation x output channel counts 0..=5, with all samples distinct, all equal, runs of equal pixels, equal colours with distinct alpha, and zero and largest samples (whole pixels, colours, alpha)", sh.len()), sh.len() * lay.len(), |t, i| {
        let (w, h) = sh[i % sh.len()];
        let (c, a) = lay[i / sh.len()];
        if w * h == 0 {
            // the reported channel count is only determined by pixels; just must not fail
            t.case(|| format!("all maps on empty {}x{}x{} alpha={}", w, h, c, a), |t| {
                let mut img: Image<u8> = Image::from_vec(w as u32, h as u32, c as u8, a, vec![]);
                t.imp(|| {
                    assert!(img.map_pixels(|p, o: &mut Vec<u8>| o.extend(p)).data().is_empty());
                    assert!(img.map_pixels_if_alpha(|p, o: &mut Vec<u8>| o.extend(p), |a| a).data().is_empty());
                    assert!(img.map_channels(|p| p).data().is_empty());
                    assert!(img.map_channels_if_alpha(|p| p, |p| p).data().is_empty());
                    img.apply_channels(|v| v);
                    img.apply_channels_if_alpha(|v| v, |v| v);
                    img.apply_pixels(|p, o| o.extend(p));
                    img.apply_pixels_if_alpha(|p, o| o.extend(p), |a| a);
                    img.edit_channel(|v| v, 0);
                })
            });
            return;
        }
        for pat in 0..if w * h > 5000 { 1 } else { 5 } {
            shape(t, w, h, c, a, pat);
        }
    });

    // the pixel trait on every small pixel
    e.par("pixel", "all pixels of length 1..=6 over {0,1,2}: every Pixel method", 6, |t, i| {
        let n = i + 1;
        for k in 0..pow(3, n) {
            let p = word(k, n, &[0, 1, 2]);
            t.case(|| format!("pixel {:?}", p), |t| {
                t.seen(11, &p);
                let px = &p[..];
                let f = |v: u8| v * 2 + 1;
                let g = |v: u8| v + 100;
                let all: Vec<u8> = t.imp(|| px.map_all(f))?;
                let al: Vec<u16> = t.imp(|| px.map_alpha(|v| v as u16 * 2 + 1, |v| v as u16 + 100))?;
                if all != p.iter().map(|&v| f(v)).collect::<Vec<_>>() {
                    return Err(format!("map_all gives {:?}", all));
                }
                let want: Vec<u16> = p.iter().enumerate().map(|(i, &v)| if i == n - 1 { g(v) as u16 } else { f(v) as u16 }).collect();
                if al != want {
                    return Err(format!("map_alpha gives {:?}", al));
                }
                if px.alpha() != p[n - 1] || px.channels_without_alpha() != &p[..n - 1] {
                    return Err("alpha()/channels_without_alpha() wrong".into());
                }
                let mut q = p.clone();
                t.imp(|| q[..].apply(f))?;
                let mut r = p.clone();
                t.imp(|| r[..].apply_alpha(f, g))?;
                if q != all || r.iter().map(|&v| v as u16).collect::<Vec<_>>() != want {
                    return Err("apply/apply_alpha differ from the map forms".into());
                }
                if t.imp(|| px.is_black())? != p.iter().all(|&v| v == 0) || t.imp(|| px.is_black_alpha())? != p[..n - 1].iter().all(|&v| v == 0) {
                    return Err("is_black/is_black_alpha wrong".into());
                }
                Ok(())
            });
        }
    });
    // every function on a three-point domain, so that no particular value of f or g escapes
    e.par("pixel functions", "all pixels of length 1..=4 over {0,1,2} x all 27 functions f x all 27 functions g on {0,1,2}: map_all, map_alpha, apply, apply_alpha, and the image-level forms on a one-row image", 27, |t, i| {
        let tf: Vec<u8> = word(i, 3, &[0, 1, 2]);
        for gi in 0..27usize {
            let tg: Vec<u8> = word(gi, 3, &[0, 1, 2]);
            let (f, g) = (|v: u8| tf[v as usize], |v: u8| tg[v as usize]);
            for n in 1..=4usize {
                t.case(|| format!("all {}-channel pixels over 0..=2 with f={:?} g={:?}", n, tf, tg), |t| {
                    let mut flat = Vec::new();
                    let mut fall = Vec::new();
                    let mut falpha = Vec::new();
                    for k in 0..pow(3, n) {
                        let p: Vec<u8> = word(k, n, &[0, 1, 2]);
                        t.seen(hash_bytes(13, &[i as u8, gi as u8]), &p);
                        let px = &p[..];
                        let wa: Vec<u8> = p.iter().map(|&v| f(v)).collect();
                        let wl: Vec<u8> = p.iter().enumerate().map(|(j, &v)| if j == n - 1 { g(v) } else { f(v) }).collect();
                        let all: Vec<u8> = t.imp(|| px.map_all(f))?;
                        let al: Vec<u8> = t.imp(|| px.map_alpha(f, g))?;
                        let mut q = p.clone();
                        t.imp(|| q[..].apply(f))?;
                        let mut r = p.clone();
                        t.imp(|| r[..].apply_alpha(f, g))?;
                        if all != wa || q != wa {
                            return Err(format!("pixel {:?}: map_all gives {:?}, apply {:?}, expected {:?}", p, all, q, wa));
                        }
                        if al != wl || r != wl {
                            return Err(format!("pixel {:?}: map_alpha gives {:?}, apply_alpha {:?}, expected {:?}", p, al, r, wl));
                        }
                        flat.extend(p);
                        fall.extend(wa);
                        falpha.extend(wl);
                    }
                    let w = flat.len() / n;
                    for alpha in [false, true] {
                        let img = Image::from_slice(w as u32, 1, n as u8, alpha, &flat);
                        let want = if alpha { &falpha } else { &fall };
                        eq(&t.imp(|| img.map_channels(f))?, w, 1, n, alpha, &fall, "map_channels")?;
                        eq(&t.imp(|| img.map_channels_if_alpha(f, g))?, w, 1, n, alpha, want, "map_channels_if_alpha")?;
                        let mut b = img.clone();
                        t.imp(|| b.apply_channels(f))?;
                        eq(&b, w, 1, n, alpha, &fall, "apply_channels")?;
                        let mut b = img.clone();
                        t.imp(|| b.apply_channels_if_alpha(f, g))?;
                        eq(&b, w, 1, n, alpha, want, "apply_channels_if_alpha")?;
                        for ch in 0..n {
                            let mut b = img.clone();
                            t.imp(|| b.edit_channel(f, ch))?;
                            let we: Vec<u8> = flat.iter().enumerate().map(|(j, &v)| if j % n == ch { f(v) } else { v }).collect();
                            eq(&b, w, 1, n, alpha, &we, "edit_channel")?;
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    e.finish();
}
