//! C08: saturation changes only HSV saturation, saturating at its range ends.
use imgproc_rs::colorspace::{hsv_to_rgb, rgb_to_hsv};
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::tone;
use vh::*;

fn reference(img: &Image<u8>, s: i16) -> Image<u8> {
    let hsv = rgb_to_hsv(img);
    let i = hsv.info();
    let c = i.channels as usize;
    let d: Vec<u8> = hsv.data().iter().enumerate().map(|(k, &v)| if k % c == 1 { (v as i32 + s as i32).clamp(0, 255) as u8 } else { v }).collect();
    hsv_to_rgb(&Image::from_vec(i.width, i.height, i.channels, i.alpha, d))
}

fn check(t: &mut T, d: &[u8], w: usize, h: usize, c: usize, alpha: bool, s: i16) -> Result<(), String> {
    let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, d);
    let out = t.imp(|| tone::saturation(&img, s))?.map_err(|e| format!("error for a valid argument: {:?}", e))?;
    let want = reference(&img, s);
    img_eq_u8(&out, w, h, c, alpha, want.data())?;
    for (p, (a, b)) in d.chunks(c).zip(out.data().chunks(c)).enumerate() {
        if a[..3].iter().max() != b[..3].iter().max() {
            return Err(format!("the largest channel of pixel {} {:?} changed: {:?}", p, a, b));
        }
        if alpha && a[3] != b[3] {
            return Err(format!("alpha of pixel {} changed", p));
        }
    }
    if img.data() != d {
        return Err("the input changed".into());
    }
    Ok(())
}

fn main() {
    let e = Engine::new("C08");
    let ss: Vec<i16> = if e.thorough() { (-255..=255).step_by(3).chain([-1, 1, 127, 128, 129, -127, -128, -129, -254, 254]).collect() } else { vec![-255, -254, -200, -129, -128, -127, -90, -40, -1, 0, 1, 33, 100, 127, 128, 129, 180, 254, 255] };
    e.par("all colours", "all 2^24 RGB colours (3 channels; 4 channels with alpha) x listed saturation values", 512, |t, i| {
        let r = i % 256;
        let alpha = i >= 256;
        let c = 3 + alpha as usize;
        let d: Vec<u8> = (0..65536usize).flat_map(|k| [r as u8, (k >> 8) as u8, k as u8, (k * 11) as u8][..c].to_vec()).collect();
        for &s in &ss {
            if alpha && s % 2 == 0 && s.abs() < 254 && !t.eng.thorough() {
                continue;
            }
            t.case(
                || format!("saturation({}) of all colours with red {} ({} channels)", s, r, c),
                |t| {
                    t.seen(80, &[r as u8, c as u8, s as u8, (s >> 8) as u8]);
                    check(t, &d, 256, 256, c, alpha, s)
                },
            );
        }
    });
    // all arguments x a grid of colours
    e.par("all arguments", "all 511 valid values x 9x9x9 colours; all 65536 arguments for acceptance", 511, |t, i| {
        let s = i as i16 - 255;
        let lv = [0u8, 1, 2, 63, 127, 128, 200, 254, 255];
        let d: Vec<u8> = (0..729).flat_map(|k| [lv[k % 9], lv[k / 9 % 9], lv[k / 81]]).collect();
        t.case(|| format!("saturation({}) of the colour grid", s), |t| {
            t.seen(81, &s.to_le_bytes());
            check(t, &d, 27, 27, 3, false, s)
        });
        let d4: Vec<u8> = d.chunks(3).enumerate().flat_map(|(k, p)| [p[0], p[1], p[2], (k * 29) as u8]).collect();
        t.case(|| format!("saturation({}) of the colour grid with alpha", s), |t| {
            t.seen(82, &s.to_le_bytes());
            check(t, &d4, 27, 27, 4, true, s)
        });
    });
    e.par("reject", "all 65536 arguments", 256, |t, i| {
        let img = Image::from_slice(3, 1, 3, false, &[9u8, 100, 200, 1, 2, 3, 255, 0, 7]);
        for k in 0..256usize {
            let s = (i * 256 + k) as u16 as i16;
            t.case(|| format!("saturation({})", s), |t| {
                let ok = t.imp(|| tone::saturation(&img, s))?.is_ok();
                if ok != (-255..=255).contains(&s) {
                    return Err(format!("accepted = {}", ok));
                }
                Ok(())
            });
        }
    });
    let nmax = e.b(150usize, 400);
    let mut sh: Vec<(usize, usize)> = (1..=nmax).flat_map(|n| [(n, 1), (1, n)]).collect();
    sh.extend(shapes(12, 12));
    sh.extend([(64, 64), (257, 255), (1031, 67), (3, 4099), (70000, 1), (1101, 1003), (5, 210001)]);
    e.par("sizes", "all image sizes x RGB, RGBA x 9 values", sh.len() * 2, |t, i| {
        let (w, h) = sh[i / 2];
        let alpha = i % 2 == 1;
        let c = 3 + alpha as usize;
        for s in [-255i16, -128, -60, -1, 0, 1, 60, 128, 255] {
            t.case(|| format!("saturation({}) on {}x{}x{}", s, w, h, c), |t| {
                let d: Vec<u8> = (0..w * h * c).map(|i| mix_u8(i, (s & 1023) as usize)).collect();
                t.seen(83 + w as u64, &d[..d.len().min(64)]);
                check(t, &d, w, h, c, alpha, s)
            });
        }
    });
    #[cfg(feature = "simd")]
    if is_x86_feature_detected!("avx2") {
        e.par("adds_n", "the single-channel saturating add: all values -255..=255 x all channels x sizes 1..=90 pixels, RGB and RGBA", 511, |t, i| {
            let v = i as i16 - 255;
            for (c, alpha) in [(3usize, false), (4usize, true)] {
                let mut szs: Vec<(usize, usize)> = (1..=90).map(|n| (n, 1)).collect();
                szs.extend([(7, 13), (100, 11), (257, 3)]);
                for (w, h) in szs {
                    for n in 0..=c {
                        t.case(|| format!("adds_n_256_u8(val={}, n={}) on {}x{}x{} alpha={}", v, n, w, h, c, alpha), |t| {
                            let d: Vec<u8> = (0..w * h * c).map(|i| mix_u8(i, i / 7 + (v & 1023) as usize)).collect();
                            let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                            let want: Vec<u8> = d.iter().enumerate().map(|(k, &x)| if n == c || k % c == n { (x as i32 + v as i32).clamp(0, 255) as u8 } else { x }).collect();
                            let out = t.imp(|| unsafe { imgproc_rs::simd::adds_n_256_u8(&img, v, n as u8) })?;
                            t.seen(84, &[n as u8, c as u8, w as u8, h as u8, v as u8, (v >> 8) as u8]);
                            img_eq_u8(&out, w, h, c, alpha, &want)
                        });
                    }
                }
            }
        });
    }
    e.finish();
}
