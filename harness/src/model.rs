//! The reference model's notion of an image: a W x H x C array of exact numbers.
use imgproc_rs::image::{BaseImage, Image, ImageInfo, Number};

#[derive(Clone, PartialEq, Debug)]
pub struct M {
    pub w: usize,
    pub h: usize,
    pub c: usize,
    pub alpha: bool,
    pub d: Vec<f64>,
}

impl M {
    pub fn new(w: usize, h: usize, c: usize, alpha: bool) -> M {
        M { w, h, c, alpha, d: vec![0.0; w * h * c] }
    }
    pub fn gen(w: usize, h: usize, c: usize, alpha: bool, f: impl Fn(usize, usize, usize) -> f64) -> M {
        let mut m = M::new(w, h, c, alpha);
        for y in 0..h {
            for x in 0..w {
                for k in 0..c {
                    m.d[(y * w + x) * c + k] = f(x, y, k);
                }
            }
        }
        m
    }
    pub fn at(&self, x: usize, y: usize, k: usize) -> f64 {
        assert!(x < self.w && y < self.h && k < self.c);
        self.d[(y * self.w + x) * self.c + k]
    }
    pub fn set(&mut self, x: usize, y: usize, k: usize, v: f64) {
        let i = (y * self.w + x) * self.c + k;
        self.d[i] = v;
    }
    /// edge pixels repeated
    pub fn cl(&self, x: i64, y: i64, k: usize) -> f64 {
        let x = x.clamp(0, self.w as i64 - 1) as usize;
        let y = y.clamp(0, self.h as i64 - 1) as usize;
        self.d[(y * self.w + x) * self.c + k]
    }
    /// number of colour (non-alpha) channels
    pub fn nc(&self) -> usize {
        if self.alpha { self.c - 1 } else { self.c }
    }
    pub fn is_alpha(&self, k: usize) -> bool {
        self.alpha && k == self.c - 1
    }
    pub fn u8(&self) -> Image<u8> {
        Image::from_vec(
            self.w as u32,
            self.h as u32,
            self.c as u8,
            self.alpha,
            self.d.iter().map(|&v| v as u8).collect(),
        )
    }
    pub fn f32(&self) -> Image<f32> {
        Image::from_vec(
            self.w as u32,
            self.h as u32,
            self.c as u8,
            self.alpha,
            self.d.iter().map(|&v| v as f32).collect(),
        )
    }
    pub fn of<T: Number + Into<f64>>(i: &Image<T>) -> Result<M, String> {
        let ImageInfo { width, height, channels, alpha } = i.info();
        let n = width as usize * height as usize * channels as usize;
        if i.data().len() != n {
            return Err(format!(
                "result claims {}x{}x{} but holds {} samples",
                width,
                height,
                channels,
                i.data().len()
            ));
        }
        Ok(M {
            w: width as usize,
            h: height as usize,
            c: channels as usize,
            alpha,
            d: i.data().iter().map(|&v| v.into()).collect(),
        })
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> M {
        let mut m = self.clone();
        for v in m.d.iter_mut() {
            *v = f(*v);
        }
        m
    }
    /// maps colour samples only
    pub fn map_colour(&self, f: impl Fn(f64) -> f64) -> M {
        let mut m = self.clone();
        for (i, v) in m.d.iter_mut().enumerate() {
            if !(self.alpha && i % self.c == self.c - 1) {
                *v = f(*v);
            }
        }
        m
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}x{}x{}{} [", self.w, self.h, self.c, if self.alpha { "a" } else { "" });
        for (i, v) in self.d.iter().take(64).enumerate() {
            if i > 0 {
                s.push(' ');
            }
            s += &format!("{}", v);
        }
        if self.d.len() > 64 {
            s += " ...";
        }
        s + "]"
    }
}

pub fn same_dims(got: &M, want: &M) -> Result<(), String> {
    if (got.w, got.h, got.c, got.alpha) != (want.w, want.h, want.c, want.alpha) {
        return Err(format!(
            "dimensions {}x{}x{} alpha={} but expected {}x{}x{} alpha={}",
            got.w, got.h, got.c, got.alpha, want.w, want.h, want.c, want.alpha
        ));
    }
    Ok(())
}

/// sample-wise |got - want| <= abs + rel*|want| (NaN only matches NaN)
pub fn close(got: &M, want: &M, abs: f64, rel: f64) -> Result<(), String> {
    same_dims(got, want)?;
    for i in 0..want.d.len() {
        let (g, w) = (got.d[i], want.d[i]);
        let ok = if g.is_nan() || w.is_nan() { g.is_nan() && w.is_nan() } else { g == w || (g - w).abs() <= abs + rel * w.abs() };
        if !ok {
            let p = i / want.c;
            return Err(format!(
                "sample (x={}, y={}, c={}) is {} but should be {} (tolerance {})",
                p % want.w,
                p / want.w,
                i % want.c,
                g,
                w,
                abs + rel * w.abs()
            ));
        }
    }
    Ok(())
}

pub fn exact(got: &M, want: &M) -> Result<(), String> {
    close(got, want, 0.0, 0.0)
}

/// the library's image `got` must equal the model image within tolerance
pub fn img_close<T: Number + Into<f64>>(got: &Image<T>, want: &M, abs: f64, rel: f64) -> Result<(), String> {
    close(&M::of(got)?, want, abs, rel)
}

/// fast exact comparison for u8 images
pub fn img_eq_u8(got: &Image<u8>, w: usize, h: usize, c: usize, alpha: bool, want: &[u8]) -> Result<(), String> {
    let i = got.info();
    if (i.width as usize, i.height as usize, i.channels as usize, i.alpha) != (w, h, c, alpha) {
        return Err(format!(
            "dimensions {}x{}x{} alpha={} but expected {}x{}x{} alpha={}",
            i.width, i.height, i.channels, i.alpha, w, h, c, alpha
        ));
    }
    if got.data() == want {
        return Ok(());
    }
    if got.data().len() != want.len() {
        return Err(format!("{} samples but expected {}", got.data().len(), want.len()));
    }
    let p = (0..want.len()).find(|&j| got.data()[j] != want[j]).unwrap();
    Err(format!(
        "sample (x={}, y={}, c={}) is {} but should be {}",
        (p / c) % w,
        p / c / w,
        p % c,
        got.data()[p],
        want[p]
    ))
}

/// pixel layouts with at least one colour channel
pub const LAYOUTS: [(usize, bool); 7] =
    [(1, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true)];
/// the layouts of image files
pub const LAYOUTS4: [(usize, bool); 4] = [(1, false), (2, true), (3, false), (4, true)];

/// layouts with more channels than any image file
pub const LAYOUTS_W: [(usize, bool); 6] = [(5, false), (6, true), (9, false), (8, true), (6, false), (5, true)];

/// number of content classes of `real_img`
pub const REALS: usize = 7;
/// floating-point contents outside the 8-bit levels (all values exact in single precision)
pub fn real_img(w: usize, h: usize, c: usize, alpha: bool, class: usize, salt: usize) -> M {
    let f = |i: usize| {
        let v = mix_u8(i, salt) as f64;
        let u = mix_u8(i, salt + 1000) as f64;
        match class {
            0 => (v - 128.0) * 7.8125 + u / 256.0,     // signed, fractional, up to 1000
            1 => v / 256.0,                            // the unit interval
            2 => (v * 256.0 + u - 32768.0) * 16.0,     // signed, up to 2^19
            3 => if v < 224.0 { 0.0 } else { -u - 1.0 }, // blank with sparse negative samples
            4 => -v - 0.5,                             // all negative
            5 => (v - 100.0) / 65536.0,                // tiny, signed
            _ => 254.0 + v / 64.0,                     // around and beyond the top level
        }
    };
    M { w, h, c, alpha, d: (0..w * h * c).map(f).collect() }
}

/// position-labelled 8-bit content: nearby samples all differ
pub fn label_u8(i: usize, salt: usize) -> u8 {
    ((i * 167 + (i >> 8) * 59 + salt * 101 + 13) & 255) as u8
}
/// position-mixed content (hash of the position)
pub fn mix_u8(i: usize, salt: usize) -> u8 {
    let mut v = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (salt as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    v ^= v >> 29;
    v = v.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    v ^= v >> 32;
    v as u8
}
pub fn label_img(w: usize, h: usize, c: usize, alpha: bool, salt: usize) -> M {
    M { w, h, c, alpha, d: (0..w * h * c).map(|i| label_u8(i, salt) as f64).collect() }
}
pub fn mix_img(w: usize, h: usize, c: usize, alpha: bool, salt: usize) -> M {
    M { w, h, c, alpha, d: (0..w * h * c).map(|i| mix_u8(i, salt) as f64).collect() }
}
/// injectively labelled image: sample i holds i + 1
pub fn seq_img(w: usize, h: usize, c: usize, alpha: bool) -> M {
    M { w, h, c, alpha, d: (0..w * h * c).map(|i| (i + 1) as f64).collect() }
}

/// number of images over an alphabet of `a` letters with `n` samples
pub fn pow(a: usize, n: usize) -> usize {
    a.pow(n as u32)
}
/// the i-th word of length n over `alpha`
pub fn word(mut i: usize, n: usize, alphabet: &[u8]) -> Vec<u8> {
    let a = alphabet.len();
    (0..n)
        .map(|_| {
            let v = alphabet[i % a];
            i /= a;
            v
        })
        .collect()
}
pub fn word_img(i: usize, w: usize, h: usize, c: usize, alpha: bool, alphabet: &[u8]) -> M {
    M { w, h, c, alpha, d: word(i, w * h * c, alphabet).into_iter().map(|v| v as f64).collect() }
}

pub fn shapes(wmax: usize, hmax: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for h in 1..=hmax {
        for w in 1..=wmax {
            v.push((w, h));
        }
    }
    v
}
