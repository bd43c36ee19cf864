//! C04: pixel iteration yields every pixel once, in order, with truthful size hints.
use imgproc_rs::image::{Image, ImageInfo, Number, PixelIter};
use vh::*;

fn item<S: Number + std::fmt::Debug>(got: Option<(u32, u32, &[S])>, img: &Image<S>, k: usize, w: usize, h: usize, c: usize) -> Result<(), String> {
    let want = if k < w * h { Some(((k % w) as u32, (k / w) as u32, &img.data()[k * c..(k + 1) * c])) } else { None };
    if got != want {
        return Err(format!("item {} is {:?}, should be {:?}", k, got.map(|g| (g.0, g.1, &g.2[..g.2.len().min(4)])), want.map(|g| (g.0, g.1, &g.2[..g.2.len().min(4)]))));
    }
    Ok(())
}

fn hint<S: Number>(it: &PixelIter<S>, left: usize) -> Result<(), String> {
    let s = it.size_hint();
    if s != (left, Some(left)) {
        return Err(format!("size_hint is {:?} with {} pixels to come", s, left));
    }
    Ok(())
}

/// all call sequences over {next, nth(k), clone-and-drain, skip, count, last, ...} starting at every position
fn run<S: Number + std::fmt::Debug>(t: &mut T, img: &Image<S>, w: usize, h: usize, c: usize, deep: bool) {
    let n = w * h;
    t.case(
        || format!("full iteration of {}x{}x{}", w, h, c),
        |t| {
            let mut it = t.imp(|| img.into_iter())?;
            for k in 0..n {
                hint(&it, n - k)?;
                item(t.imp(|| it.next())?, img, k, w, h, c)?;
                if deep {
                    t.seen(hash_bytes(21, &[w as u8, h as u8, c as u8, std::mem::size_of::<S>() as u8]), &[k as u8]);
                }
            }
            for k in 0..4 {
                hint(&it, 0)?;
                item(t.imp(|| it.next())?, img, n + k, w, h, c)?;
            }
            // a second iteration of the same image sees the same
            let mut k = 0;
            for p in img {
                item(Some(p), img, k, w, h, c)?;
                k += 1;
            }
            if k != n {
                return Err(format!("a for loop ran {} times over {} pixels", k, n));
            }
            Ok(())
        },
    );
    if !deep {
        return;
    }
    for pos in 0..=n + 1 {
        for op in 0..9 {
            let kmax = if op == 0 || op == 5 || op == 6 { n + 2 } else { 1 };
            for k in 0..kmax {
                t.case(
                    || format!("{}x{}x{}: after {} next() calls, adaptor {} with argument {}", w, h, c, pos, op, k),
                    |t| {
                        let mut it = PixelIter::new(img);
                        for _ in 0..pos {
                            it.next();
                        }
                        let p = pos.min(n); // pixels consumed
                        hint(&it, n - p)?;
                        match op {
                            0 => {
                                item(t.imp(|| it.nth(k))?, img, p + k, w, h, c)?;
                                let q = (p + k + 1).min(n);
                                hint(&it, n - q)?;
                                item(t.imp(|| it.next())?, img, q, w, h, c)?;
                            }
                            1 => {
                                let cnt = t.imp(|| it.clone().count())?;
                                if cnt != n - p {
                                    return Err(format!("count() is {}", cnt));
                                }
                                hint(&it, n - p)?;
                                item(it.next(), img, p, w, h, c)?;
                            }
                            2 => {
                                let l = t.imp(|| it.clone().last())?;
                                if p < n {
                                    item(l, img, n - 1, w, h, c)?;
                                } else if l.is_some() {
                                    return Err("last() of an ended iteration".into());
                                }
                            }
                            3 => {
                                // interleaved clones are independent
                                let mut a = it.clone();
                                let mut b = it.clone();
                                for j in p..n + 2 {
                                    item(t.imp(|| a.next())?, img, j, w, h, c)?;
                                    hint(&b, n - j.min(n))?;
                                    item(t.imp(|| b.next())?, img, j, w, h, c)?;
                                }
                                item(it.next(), img, p, w, h, c)?;
                            }
                            4 => {
                                let v = t.imp(|| it.collect::<Vec<_>>())?;
                                if v.len() != n - p {
                                    return Err(format!("collect() yields {} pixels of {}", v.len(), n - p));
                                }
                                for (j, g) in v.into_iter().enumerate() {
                                    item(Some(g), img, p + j, w, h, c)?;
                                }
                            }
                            5 => {
                                let v = t.imp(|| it.skip(k).collect::<Vec<_>>())?;
                                let q = (p + k).min(n);
                                if v.len() != n - q {
                                    return Err(format!("skip({}) yields {} pixels of {}", k, v.len(), n - q));
                                }
                                for (j, g) in v.into_iter().enumerate() {
                                    item(Some(g), img, q + j, w, h, c)?;
                                }
                            }
                            6 => {
                                let v = t.imp(|| it.step_by(k + 1).collect::<Vec<_>>())?;
                                let want: Vec<usize> = (p..n).step_by(k + 1).collect();
                                if v.len() != want.len() {
                                    return Err(format!("step_by({}) yields {} pixels of {}", k + 1, v.len(), want.len()));
                                }
                                for (g, j) in v.into_iter().zip(want) {
                                    item(Some(g), img, j, w, h, c)?;
                                }
                            }
                            7 => {
                                let mut j = p;
                                let mut bad = None;
                                t.imp(|| {
                                    it.for_each(|g| {
                                        if bad.is_none() {
                                            bad = item(Some(g), img, j, w, h, c).err();
                                        }
                                        j += 1;
                                    })
                                })?;
                                if let Some(b) = bad {
                                    return Err(b);
                                }
                                if j != n {
                                    return Err(format!("for_each ran {} times", j - p));
                                }
                            }
                            _ => {
                                let mut f = t.imp(|| it.fuse())?;
                                for j in p..n + 3 {
                                    item(t.imp(|| f.next())?, img, j, w, h, c)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn all<S: Number + std::fmt::Debug>(e: &Engine, name: &str, sh: &[(usize, usize)], chans: usize, deep: bool, f: impl Fn(usize) -> S + Sync) {
    e.par(name, "all listed shapes (including empty ones) x channels; every position x every iterator operation and argument", sh.len() * chans, |t, i| {
        let ((w, h), c) = (sh[i / chans], i % chans + 1);
        let img = Image::from_vec(w as u32, h as u32, c as u8, i % 2 == 1, (0..w * h * c).map(&f).collect());
        run(t, &img, w, h, c, deep);
        t.case(
            || format!("blank image {}x{}x{}", w, h, c),
            |t| {
                let b: Image<S> = Image::blank(ImageInfo::new(w as u32, h as u32, c as u8, false));
                let n = t.imp(|| b.into_iter().count())?;
                if n != w * h {
                    return Err(format!("{} pixels yielded", n));
                }
                Ok(())
            },
        );
    });
}

fn main() {
    let e = Engine::new("C04");
    let m = e.b(7, 9);
    let sh: Vec<_> = (0..=m).flat_map(|h| (0..=m).map(move |w| (w, h))).collect();
    all::<u32>(&e, "every position/u32", &sh, 4, true, |i| i as u32 + 1);
    all::<f32>(&e, "every position/f32", &(0..=4).flat_map(|h| (0..=4).map(move |w| (w, h))).collect::<Vec<_>>(), 3, true, |i| i as f32 + 0.5);
    let mut big = vec![(300, 5), (5, 300), (70000, 1), (1, 70000), (257, 257), (256, 3), (3, 256), (1025, 2), (2, 1025), (66000, 2), (2, 66000), (301, 521), (521, 301), (515, 769), (65536, 2), (2, 65537), (70000, 0), (0, 70000), (1101, 1003), (5, 210001), (3001, 701), (1030, 2100), (2100, 1030)];
    for w in 8..=e.b(40, 80) {
        for h in [1, 2, 3, 5, 8, 9, 16, 17, 33] {
            big.push((w, h));
            big.push((h, w));
        }
    }
    all::<u32>(&e, "whole iterations of large images", &big, 2, false, |i| i as u32 + 1);
    all::<u8>(&e, "whole iterations of large images/u8", &big, 4, false, |i| label_u8(i, 3));
    e.finish();
}
