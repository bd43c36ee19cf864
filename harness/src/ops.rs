//! The operation alphabet: every public image operation with concrete arguments, as transitions
//! from an input state (`In`) to an observable outcome (`Out`).
use crate::model::*;
use imgproc_rs::enums::*;
use imgproc_rs::image::{BaseImage, Image, Number};
use imgproc_rs::{colorspace, convert, filter, morphology, tone, transform, util};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Rejected,
    Img { w: usize, h: usize, c: usize, alpha: bool, float: bool, d: Vec<f64> },
    Vals(Vec<f64>),
}

impl Out {
    pub fn fp(&self) -> u64 {
        let (tag, v): (u64, &[f64]) = match self {
            Out::Rejected => (1, &[]),
            Out::Img { w, h, c, alpha, d, .. } => (((*w as u64) << 34) ^ ((*h as u64) << 10) ^ ((*c as u64) << 2) ^ ((*alpha as u64) << 1) | 1 << 60, d),
            Out::Vals(v) => (3, v),
        };
        let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8) };
        crate::engine::hash_bytes(tag, b)
    }
    pub fn show(&self) -> String {
        match self {
            Out::Rejected => "an error".into(),
            Out::Img { w, h, c, alpha, d, .. } => format!("a {}x{}x{}{} image {:?}", w, h, c, if *alpha { "a" } else { "" }, &d[..d.len().min(24)]),
            Out::Vals(v) => format!("values {:?}", &v[..v.len().min(24)]),
        }
    }
}

fn im<T: Number + Into<f64>>(i: Image<T>) -> Out {
    Out::Img { w: i.info().width as usize, h: i.info().height as usize, c: i.info().channels as usize, alpha: i.info().alpha, float: std::any::type_name::<T>() != "u8", d: i.data().iter().map(|&v| v.into()).collect() }
}
fn ri<T: Number + Into<f64>, E>(r: Result<Image<T>, E>) -> Out {
    match r {
        Ok(i) => im(i),
        Err(_) => Out::Rejected,
    }
}
fn vals(v: &[f32]) -> Out {
    Out::Vals(v.iter().map(|&x| x as f64).collect())
}
fn rv<E>(r: Result<Vec<f32>, E>) -> Out {
    match r {
        Ok(v) => vals(&v),
        Err(_) => Out::Rejected,
    }
}

/// an input state: the same image as 8-bit, float and unit-range float, and a second image
pub struct In {
    pub m: M,
    pub u: Image<u8>,
    pub f: Image<f32>,
    pub n: Image<f32>,
    pub u2: Image<u8>,
    pub f2: Image<f32>,
    keep: (Image<u8>, Image<f32>, Image<f32>, Image<u8>, Image<f32>),
}

impl In {
    pub fn new(m: M) -> In {
        let s = mix_img(m.w.div_ceil(2), m.h.div_ceil(2), m.c, m.alpha, 99);
        let n = m.map(|v| v / 255.0).f32();
        let (u, f, u2, f2) = (m.u8(), m.f32(), s.u8(), s.f32());
        let keep = (u.clone(), f.clone(), n.clone(), u2.clone(), f2.clone());
        In { m, u, f, n, u2, f2, keep }
    }
    /// the inputs are exactly as they were built
    pub fn untouched(&self) -> Result<(), String> {
        fn eq<T: Number>(a: &Image<T>, b: &Image<T>, n: &str) -> Result<(), String> {
            if a.info() != b.info() || a.data() != b.data() {
                return Err(format!("the {} input image was modified", n));
            }
            Ok(())
        }
        eq(&self.u, &self.keep.0, "8-bit")?;
        eq(&self.f, &self.keep.1, "float")?;
        eq(&self.n, &self.keep.2, "unit float")?;
        eq(&self.u2, &self.keep.3, "second 8-bit")?;
        eq(&self.f2, &self.keep.4, "second float")
    }
    /// rewrites the contents in place: the same objects at the same addresses hold another image
    pub fn rewrite(&mut self, m: &M) {
        assert!((m.w, m.h, m.c, m.alpha) == (self.m.w, self.m.h, self.m.c, self.m.alpha));
        for (i, &v) in m.d.iter().enumerate() {
            self.u.data_mut()[i] = v as u8;
            self.f.data_mut()[i] = v as f32;
            self.n.data_mut()[i] = (v / 255.0) as f32;
        }
        self.m = m.clone();
        self.keep = (self.u.clone(), self.f.clone(), self.n.clone(), self.u2.clone(), self.f2.clone());
    }
    pub fn gray(&self) -> bool {
        (self.m.c == 1 && !self.m.alpha) || (self.m.c == 2 && self.m.alpha)
    }
    pub fn rgb(&self) -> bool {
        (self.m.c == 3 && !self.m.alpha) || (self.m.c == 4 && self.m.alpha)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Any,
    /// needs three colour channels (and possibly alpha)
    Rgb,
    /// needs one colour channel (and possibly alpha)
    Gray,
}

pub struct Op {
    pub name: String,
    pub kind: Kind,
    /// 0 cheap, 1 medium, 2 expensive
    pub cost: u8,
    /// 8-bit levels by which configurations may differ (float rounding before quantisation)
    pub levels: f64,
    /// one representative per function for deeper sequences
    pub rep: bool,
    /// from the extended argument grid
    pub more: bool,
    pub f: Box<dyn Fn(&In) -> Out + Send + Sync>,
}

impl Op {
    pub fn fits(&self, i: &In) -> bool {
        match self.kind {
            Kind::Any => true,
            Kind::Rgb => i.rgb(),
            Kind::Gray => i.gray(),
        }
    }
}

pub fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut last = String::new();
    let mut add = |name: String, kind: Kind, cost: u8, levels: f64, f: Box<dyn Fn(&In) -> Out + Send + Sync>| {
        let func = name.split([' ', '(']).next().unwrap().to_string();
        let rep = func != last;
        last = func;
        v.push(Op { name, kind, cost, levels, rep, more: false, f });
    };
    use Kind::*;
    macro_rules! op {
        ($k:expr, $c:expr, $l:expr, $f:expr, $($n:tt)*) => { add(format!($($n)*), $k, $c, $l, Box::new($f)) };
    }
    // tone
    for b in [40i16, -70, 255, -255, 0, 256, -300] {
        op!(Any, 0, 0.0, move |i: &In| ri(tone::brightness(&i.u, b)), "brightness {}", b);
    }
    for b in [40i16, -70, 300] {
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::brightness_lab(&i.u, b)), "brightness_lab {}", b);
    }
    for g in [0.5f32, 0.9, 1.0, 1.5] {
        op!(Any, 0, 0.0, move |i: &In| ri(tone::contrast(&i.u, g)), "contrast {}", g);
    }
    for g in [0.5f32, 1.0, -0.5] {
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::contrast_lab(&i.u, g)), "contrast_lab {}", g);
    }
    for s in [60i16, -60, 255, 300] {
        op!(Rgb, 0, 0.0, move |i: &In| ri(tone::saturation(&i.u, s)), "saturation {}", s);
    }
    for (g, m) in [(2.2f32, 255u8), (0.5, 255), (2.2, 128), (-1.0, 255)] {
        op!(Any, 0, 1.0, move |i: &In| ri(tone::gamma(&i.u, g, m)), "gamma {} {}", g, m);
    }
    for (t, p) in [(1.0f32, 255.0f32), (0.3, 255.0), (1.0, 10.0), (2.0, 255.0)] {
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::histogram_equalization(&i.u, t, &White::D50, p)), "histogram_equalization {} {} D50", t, p);
    }
    op!(Rgb, 1, 1.0, |i: &In| ri(tone::histogram_equalization(&i.u, 1.0, &White::D65, 255.0)), "histogram_equalization 1 255 D65");
    // colour
    op!(Any, 0, 0.0, |i: &In| im(colorspace::rgb_to_grayscale(&i.u)), "rgb_to_grayscale");
    op!(Any, 0, 0.0, |i: &In| im(colorspace::rgb_to_grayscale_f32(&i.f)), "rgb_to_grayscale_f32");
    op!(Any, 0, 0.0, |i: &In| im(colorspace::linearize_srgb_f32(&i.u)), "linearize_srgb_f32");
    op!(Any, 0, 1.0, |i: &In| im(colorspace::unlinearize_srgb_f32(&i.n)), "unlinearize_srgb_f32");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::srgb_lin_to_xyz_f32(&i.n)), "srgb_lin_to_xyz_f32");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::xyz_to_srgb_lin_f32(&i.n)), "xyz_to_srgb_lin_f32");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::xyz_to_lab_f32(&i.n, &White::D50)), "xyz_to_lab_f32 D50");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::xyz_to_lab_f32(&i.n, &White::D65)), "xyz_to_lab_f32 D65");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::lab_to_xyz_f32(&i.f, &White::D50)), "lab_to_xyz_f32 D50");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::lab_to_xyz_f32(&i.f, &White::D65)), "lab_to_xyz_f32 D65");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::rgb_to_hsv(&i.u)), "rgb_to_hsv");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::hsv_to_rgb(&i.u)), "hsv_to_rgb");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::rgb_to_hsv_f32(&i.u)), "rgb_to_hsv_f32");
    op!(Rgb, 0, 1.0, |i: &In| im(colorspace::hsv_to_rgb_f32(&colorspace::rgb_to_hsv_f32(&i.u))), "hsv_to_rgb_f32");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::srgb_to_xyz_f32(&i.u)), "srgb_to_xyz_f32");
    op!(Rgb, 0, 1.0, |i: &In| im(colorspace::xyz_to_srgb_f32(&i.n)), "xyz_to_srgb_f32");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::srgb_to_lab_f32(&i.u, &White::D50)), "srgb_to_lab_f32 D50");
    op!(Rgb, 0, 0.0, |i: &In| im(colorspace::srgb_to_lab_f32(&i.u, &White::D65)), "srgb_to_lab_f32 D65");
    op!(Rgb, 0, 1.0, |i: &In| im(colorspace::lab_to_srgb_f32(&i.f, &White::D50)), "lab_to_srgb_f32 D50");
    op!(Rgb, 0, 1.0, |i: &In| im(colorspace::lab_to_srgb_f32(&i.f, &White::D65)), "lab_to_srgb_f32 D65");
    // conversions
    op!(Any, 0, 0.0, |i: &In| ri(convert::scale_channels(&i.f, 0.0, -1.0, 255.0, 1.0)), "scale_channels -1 1");
    op!(Any, 0, 0.0, |i: &In| ri(convert::scale_channels(&i.f, 10.0, 0.0, 100.0, 5.0)), "scale_channels 0 5");
    op!(Any, 0, 0.0, |i: &In| im(convert::f32_to_u8_scale(&i.n, 1)), "f32_to_u8_scale 1");
    op!(Any, 0, 0.0, |i: &In| im(convert::f32_to_u8_scale(&i.n, 2)), "f32_to_u8_scale 2");
    op!(Any, 0, 0.0, |i: &In| im(convert::u8_to_f32_scale(&i.u, 1)), "u8_to_f32_scale 1");
    op!(Any, 0, 0.0, |i: &In| im(convert::u8_to_f32_scale(&i.u, 100)), "u8_to_f32_scale 100");
    op!(Any, 0, 0.0, |i: &In| im(Image::<f32>::from(i.u.clone())), "from-u8-to-f32");
    op!(Any, 0, 0.0, |i: &In| im(Image::<u8>::from(i.f.clone())), "from-f32-to-u8");
    // geometry
    for (x, y, dw, dh) in [(0u32, 0u32, 0u32, 0u32), (1, 1, 1, 1), (0, 1, 1, 1), (2, 0, 3, 2)] {
        op!(Any, 0, 0.0, move |i: &In| { let (w, h) = i.u.info().wh(); if w <= dw || h <= dh { Out::Rejected } else { ri(transform::crop(&i.u, x, y, w - dw, h - dh)) } }, "crop {} {} -{} -{}", x, y, dw, dh);
        op!(Any, 0, 0.0, move |i: &In| { let (w, h) = i.u.info().wh(); if w <= dw || h <= dh { Out::Rejected } else { ri(transform::crop(&i.f, x, y, w - dw, h - dh)) } }, "crop-f32 {} {} -{} -{}", x, y, dw, dh);
    }
    op!(Any, 0, 0.0, |i: &In| ri(transform::crop(&i.u, 1, 0, i.u.info().width, 1)), "crop too wide");
    for (x, y, a) in [(0u32, 0u32, 0.5f32), (1, 2, 0.25), (2, 0, 1.5)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::superimpose(&i.f, &i.f2, x, y, a)), "superimpose {} {} {}", x, y, a);
    }
    for (x, y) in [(0u32, 0u32), (2, 1), (u32::MAX, 0)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::overlay(&i.u, &i.u2, x, y)), "overlay {} {}", x, y);
    }
    for (fx, fy) in [(2.0f32, 2.0f32), (0.5, 0.75), (1.3, 0.6), (1.0, -1.0)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::NearestNeighbor)), "scale-nearest {} {}", fx, fy);
        op!(Any, 0, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Bilinear)), "scale-bilinear {} {}", fx, fy);
        op!(Any, 2, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Bicubic)), "scale-bicubic {} {}", fx, fy);
        op!(Any, 2, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Lanczos)), "scale-lanczos3 {} {}", fx, fy);
        op!(Any, 2, 0.0, move |i: &In| ri(transform::scale_lanczos(&i.f, fx, fy, 2)), "scale_lanczos 2 {} {}", fx, fy);
    }
    for (x, y) in [(0u32, 0u32), (2, 1), (u32::MAX, u32::MAX)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::translate(&i.u, x, y)), "translate {} {}", x, y);
    }
    for a in [30.0f32, 90.0, -45.0] {
        op!(Any, 1, 0.0, move |i: &In| ri(transform::rotate(&i.f, a)), "rotate {}", a);
    }
    op!(Any, 0, 0.0, |i: &In| ri(transform::reflect(&i.u, Refl::Vertical)), "reflect vertical");
    op!(Any, 0, 0.0, |i: &In| ri(transform::reflect(&i.f, Refl::Horizontal)), "reflect horizontal");
    for (x, y) in [(0.5f32, 0.0f32), (-0.3, 0.7)] {
        op!(Any, 1, 0.0, move |i: &In| ri(transform::shear(&i.f, x, y)), "shear {} {}", x, y);
    }
    // linear filters
    let k3: [f32; 3] = [1.0, 2.0, -0.5];
    let k5: [f32; 5] = [0.1, 0.2, 0.4, 0.2, 0.1];
    for vert in [true, false] {
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &k3, vert)), "filter_1d 3 {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &k5, vert)), "filter_1d 5 {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &k5[..4], vert)), "filter_1d 4 {}", vert);
    }
    op!(Any, 1, 0.0, move |i: &In| ri(filter::separable_filter(&i.f, &k3, &[0.5, 0.25, 0.25])), "separable_filter");
    op!(Any, 0, 0.0, move |i: &In| ri(filter::separable_filter(&i.f, &k3, &k5)), "separable_filter unequal");
    op!(Any, 1, 0.0, |i: &In| ri(filter::unseparable_filter(&i.f, &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0])), "unseparable_filter 3");
    op!(Any, 0, 0.0, |i: &In| ri(filter::unseparable_filter(&i.f, &[1.0; 8])), "unseparable_filter even");
    op!(Any, 1, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[1.0, 2.0, 1.0, 2.0, 4.0, 2.0, 1.0, 2.0, 1.0])), "linear_filter separable");
    op!(Any, 1, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, -9.0])), "linear_filter full");
    for n in [1u32, 3, 5, 4] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::box_filter(&i.f, n)), "box_filter {}", n);
    }
    for (n, w) in [(3u32, 1u32), (3, 10), (5, 4), (2, 1)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::weighted_avg_filter(&i.f, n, w)), "weighted_avg_filter {} {}", n, w);
    }
    for (n, s) in [(3u32, 1.0f32), (5, 1.0), (5, 2.0), (4, 1.0)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::gaussian_blur(&i.f, n, s)), "gaussian_blur {} {}", n, s);
    }
    op!(Any, 1, 0.0, |i: &In| ri(filter::sharpen(&i.f)), "sharpen");
    op!(Any, 1, 0.0, |i: &In| ri(filter::unsharp_masking(&i.f)), "unsharp_masking");
    for k in 0..5usize {
        for (t, m) in [(127.0f32, 255.0f32), (60.0, 1.0)] {
            op!(Any, 0, 0.0, move |i: &In| ri(filter::threshold(&i.f, t, m, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv })), "threshold-{} {} {}", k, t, m);
        }
    }
    op!(Any, 0, 0.0, |i: &In| ri(filter::residual(&i.f, &i.n)), "residual");
    op!(Any, 0, 0.0, |i: &In| ri(filter::residual(&i.f, &i.f2)), "residual of two sizes");
    op!(Any, 1, 0.0, |i: &In| ri(filter::prewitt(&i.f)), "prewitt");
    op!(Any, 1, 0.0, |i: &In| ri(filter::sobel(&i.f)), "sobel");
    for w in [2u32, 5] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::sobel_weighted(&i.f, w)), "sobel_weighted {}", w);
    }
    op!(Any, 1, 0.0, move |i: &In| ri(filter::derivative_mask(&i.f, &k3, &[0.5, 0.25, 0.25])), "derivative_mask");
    op!(Any, 1, 0.0, |i: &In| ri(filter::laplacian(&i.f)), "laplacian");
    for (n, s) in [(3u32, 1.0f32), (5, 1.4)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::laplacian_of_gaussian(&i.f, n, s)), "laplacian_of_gaussian {} {}", n, s);
    }
    op!(Gray, 0, 1.0, |i: &In| ri(filter::normalize_laplacian(&i.f)), "normalize_laplacian");
    // rank filters
    for r in [0u32, 1, 2, 3] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::median_filter(&i.u, r)), "median_filter {}", r);
    }
    for (r, a) in [(1u32, 0u32), (1, 2), (2, 6), (1, 3), (1, 10)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::alpha_trimmed_mean_filter(&i.u, r, a)), "alpha_trimmed_mean_filter {} {}", r, a);
    }
    for (r, s) in [(20.0f32, 0.5f32), (20.0, 1.0), (2.0, 0.5), (-1.0, 1.0)] {
        op!(Rgb, 2, 1.0, move |i: &In| ri(filter::bilateral_filter(&i.u, r, s, Bilateral::Direct)), "bilateral_filter {} {}", r, s);
    }
    // morphology: on the thresholded image
    for r in [1u32, 2] {
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::erode(&bin(i), r)), "erode {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::dilate(&bin(i), r)), "dilate {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::majority(&bin(i), r)), "majority {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::open(&bin(i), r)), "open {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::close(&bin(i), r)), "close {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::gradient(&bin(i), r)), "gradient {}", r);
    }
    // images as containers
    op!(Any, 0, 0.0, |i: &In| im(i.u.map_pixels(|p, o: &mut Vec<u8>| o.extend(p.iter().rev()))), "map_pixels");
    op!(Any, 0, 0.0, |i: &In| im(i.u.map_channels(|v| v / 2)), "map_channels");
    op!(Any, 0, 0.0, |i: &In| im(i.u.map_channels_if_alpha(|v| v / 2, |a| a ^ 1)), "map_channels_if_alpha");
    op!(Any, 0, 0.0, |i: &In| im(i.u.map_pixels_if_alpha(|p, o: &mut Vec<u8>| o.extend(p.iter().map(|v| v / 3)), |a| a ^ 3)), "map_pixels_if_alpha");
    op!(Any, 0, 0.0, |i: &In| { let mut a = i.u.clone(); a.apply_channels(|v| 255 - v); a.edit_channel(|v| v / 2, 0); im(a) }, "apply_channels");
    op!(Any, 0, 0.0, |i: &In| { let mut a = i.u.clone(); a.apply_channels_if_alpha(|v| 255 - v, |a| a / 2); im(a) }, "apply_channels_if_alpha");
    op!(Any, 0, 0.0, |i: &In| { let mut a = i.u.clone(); a.apply_pixels(|p, o| o.extend(p.iter().rev())); im(a) }, "apply_pixels");
    op!(Any, 0, 0.0, |i: &In| Out::Vals(i.u.get_neighborhood_2d(0, 0, 3).to_vec().iter().map(|&v| v as f64).collect()), "get_neighborhood_2d");
    op!(Any, 0, 0.0, |i: &In| Out::Vals(i.u.get_neighborhood_1d(0, i.u.info().height - 1, 5, true).to_vec().iter().map(|&v| v as f64).collect()), "get_neighborhood_1d");
    op!(Any, 0, 0.0, |i: &In| Out::Vals(i.f.get_subimage(0, 0, i.f.info().width, 1).to_vec().iter().map(|&v| v as f64).collect()), "get_subimage");
    op!(Any, 0, 0.0, |i: &In| { let mut o = Vec::new(); for p in i.u.into_iter() { o.push(p.0 as f64 * 1000.0 + p.1 as f64); o.extend(p.2.iter().map(|&v| v as f64)); } Out::Vals(o) }, "iterate");
    // utilities
    op!(Any, 0, 0.0, |i: &In| im(util::generate_summed_area_table(&i.f)), "generate_summed_area_table");
    op!(Any, 0, 0.0, |i: &In| { let t = util::generate_summed_area_table(&i.f); let (w, h) = t.info().wh(); vals(&util::rectangular_intensity_sum(&t, w / 2, h / 2, w - 1, h - 1)) }, "rectangular_intensity_sum");
    op!(Any, 0, 0.0, |i: &In| { let mut p = std::collections::HashMap::new(); util::generate_histogram_percentiles(&i.f, &mut p, 2.0); let mut k: Vec<_> = p.into_iter().collect(); k.sort_by_key(|x| x.0); Out::Vals(k.into_iter().flat_map(|(a, b)| [a as f64, b as f64]).collect()) }, "generate_histogram_percentiles");
    for (n, s) in [(3u32, 1.0f32), (3, 2.0), (5, 1.0), (4, 1.0)] {
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_gaussian_kernel(n, s)), "generate_gaussian_kernel {} {}", n, s);
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_log_kernel(n, s)), "generate_log_kernel {} {}", n, s);
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_spatial_mat(n, s)), "generate_spatial_mat {} {}", n, s);
    }
    op!(Any, 0, 0.0, |i: &In| { let k: Vec<f32> = i.f.data().iter().cycle().take(9).cloned().collect(); match util::separate_kernel(&k) { Some((a, b)) => vals(&[a, b].concat()), None => Out::Rejected } }, "separate_kernel of samples");
    op!(Any, 0, 0.0, |_: &In| match util::separate_kernel(&[1.0, 2.0, 1.0, 2.0, 4.0, 2.0, 1.0, 2.0, 1.0]) { Some((a, b)) => vals(&[a, b].concat()), None => Out::Rejected }, "separate_kernel");
    op!(Any, 0, 0.0, |i: &In| { let d: Vec<f32> = i.f.data().iter().cycle().take(12).cloned().collect(); rv(util::vector_mul(&d[..9], &d[9..])) }, "vector_mul");
    op!(Any, 0, 0.0, |i: &In| { let d: Vec<f32> = i.f.data().iter().cycle().take(4).cloned().collect(); vals(&[util::max_3(d[0], d[1], d[2]), util::min_3(d[0], d[1], d[2]), util::max_4(d[0], d[1], d[2], d[3]), util::min_4(d[0], d[1], d[2], d[3]), util::distance(d[0] as u32, d[1] as u32, d[2] as u32, d[3] as u32), util::sinc_norm(d[0] / 64.0), util::lanczos_kernel(d[1] / 64.0, 3.0), util::cubic_weighting_fn(d[2] / 128.0), util::clamp_zero(d[0] - 100.0), util::xyz_to_lab_fn(d[1] / 255.0), util::lab_to_xyz_fn(d[2] / 255.0)]) }, "scalar-helpers");
    #[cfg(feature = "simd")]
    op!(Any, 0, 0.0, |i: &In| im(imgproc_rs::simd::avg_checked_256_u8(&i.u)), "avg_checked_256_u8");
    v
}

fn bin(i: &In) -> Image<u8> {
    i.u.map_channels(|v| if v > 127 { 255 } else { 0 })
}

/// kernels far wider than the images
pub fn wide_ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut add = |name: String, kind: Kind, cost: u8, levels: f64, f: Box<dyn Fn(&In) -> Out + Send + Sync>| v.push(Op { name, kind, cost, levels, rep: false, more: true, f });
    use Kind::*;
    macro_rules! op {
        ($k:expr, $c:expr, $l:expr, $f:expr, $($n:tt)*) => { add(format!($($n)*), $k, $c, $l, Box::new($f)) };
    }
    let wide = |n: usize| -> Vec<f32> { (0..n).map(|i| ((i * i * 5 + i) % 13) as f32 / 64.0 - 0.07).collect() };
    for n in [33usize, 65, 99, 101, 129, 257] {
        for vert in [true, false] {
            let k = wide(n);
            op!(Any, 2, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &k, vert)), "filter_1d {} {}", n, vert);
        }
        let k = wide(n);
        op!(Any, 2, 0.0, move |i: &In| ri(filter::separable_filter(&i.f, &k, &k)), "separable_filter {}", n);
        let k = wide(n);
        op!(Any, 2, 0.0, move |i: &In| ri(filter::derivative_mask(&i.f, &k, &k)), "derivative_mask {}", n);
    }
    for n in [13usize, 21, 33] {
        let k: Vec<f32> = wide(n * n);
        op!(Any, 2, 0.0, move |i: &In| ri(filter::unseparable_filter(&i.f, &k)), "unseparable_filter {}", n);
        op!(Any, 2, 0.0, move |i: &In| ri(filter::box_filter(&i.f, n as u32)), "box_filter {}", n);
        op!(Any, 2, 0.0, move |i: &In| ri(filter::gaussian_blur(&i.f, n as u32, n as f32 / 5.0)), "gaussian_blur {}", n);
    }
    v
}

/// every position near the corner of the operations that place one image in another
pub fn place_ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut add = |name: String, f: Box<dyn Fn(&In) -> Out + Send + Sync>| v.push(Op { name, kind: Kind::Any, cost: 0, levels: 0.0, rep: false, more: true, f });
    for x in 0..4u32 {
        for y in 0..4u32 {
            add(format!("overlay {} {}", x, y), Box::new(move |i: &In| ri(transform::overlay(&i.u, &i.u2, x, y))));
            add(format!("superimpose {} {} 0.25", x, y), Box::new(move |i: &In| ri(transform::superimpose(&i.f, &i.f2, x, y, 0.25))));
            add(format!("translate {} {}", x, y), Box::new(move |i: &In| ri(transform::translate(&i.u, x, y))));
            for (w, h) in [(1u32, 1u32), (2, 3)] {
                add(format!("crop {} {} {} {}", x, y, w, h), Box::new(move |i: &In| ri(transform::crop(&i.f, x, y, w, h))));
            }
        }
    }
    v
}

/// further arguments of every function that takes any: neighbours of those above, other ranges,
/// larger sizes, each kind of rejection
pub fn more_ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut add = |name: String, kind: Kind, cost: u8, levels: f64, f: Box<dyn Fn(&In) -> Out + Send + Sync>| v.push(Op { name, kind, cost, levels, rep: false, more: true, f });
    use Kind::*;
    macro_rules! op {
        ($k:expr, $c:expr, $l:expr, $f:expr, $($n:tt)*) => { add(format!($($n)*), $k, $c, $l, Box::new($f)) };
    }
    for b in [41i16, 39, -71, -256, 254, i16::MIN, i16::MAX] {
        op!(Any, 0, 0.0, move |i: &In| ri(tone::brightness(&i.u, b)), "brightness {}", b);
    }
    for b in [41i16, -71, -256, 255, -255, 0] {
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::brightness_lab(&i.u, b)), "brightness_lab {}", b);
    }
    for g in [0.5004f32, 0.0, -0.1, 0.1, 0.999] {
        op!(Any, 0, 0.0, move |i: &In| ri(tone::contrast(&i.u, g)), "contrast {}", g);
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::contrast_lab(&i.u, g)), "contrast_lab {}", g);
    }
    op!(Rgb, 1, 1.0, move |i: &In| ri(tone::contrast_lab(&i.u, 1.5)), "contrast_lab 1.5");
    for s in [61i16, 0, -255, -256, 10] {
        op!(Rgb, 0, 0.0, move |i: &In| ri(tone::saturation(&i.u, s)), "saturation {}", s);
    }
    for (g, m) in [(2.2003f32, 255u8), (2.2, 254), (1.0, 255), (0.0, 255), (2.2, 0), (4.0, 128)] {
        op!(Any, 0, 1.0, move |i: &In| ri(tone::gamma(&i.u, g, m)), "gamma {} {}", g, m);
    }
    for (t, p, w) in [(1.0f32, 254.0f32, White::D50), (0.3004, 255.0, White::D50), (0.0, 255.0, White::D50), (0.3, 255.0, White::D65), (-0.1, 255.0, White::D50), (1.0, -1.0, White::D50), (0.5, 0.0, White::D65)] {
        let n = format!("histogram_equalization {} {} {}", t, p, if matches!(w, White::D50) { "D50" } else { "D65" });
        op!(Rgb, 1, 1.0, move |i: &In| ri(tone::histogram_equalization(&i.u, t, &w, p)), "{}", n);
    }
    for (a, b, c, d) in [(0.0f32, -1.0f32, 255.0f32, 1.0004f32), (1.0, -1.0, 255.0, 1.0), (0.0, -2.0, 254.0, 1.0)] {
        op!(Any, 0, 0.0, move |i: &In| ri(convert::scale_channels(&i.f, a, b, c, d)), "scale_channels {} {} {} {}", a, b, c, d);
    }
    op!(Any, 0, 0.0, |i: &In| im(convert::f32_to_u8_scale(&i.n, 3)), "f32_to_u8_scale 3");
    op!(Any, 0, 0.0, |i: &In| im(convert::f32_to_u8_scale(&i.f, 255)), "f32_to_u8_scale 255");
    op!(Any, 0, 0.0, |i: &In| im(convert::u8_to_f32_scale(&i.u, 101)), "u8_to_f32_scale 101");
    op!(Any, 0, 0.0, |i: &In| im(convert::u8_to_f32_scale(&i.u, 255)), "u8_to_f32_scale 255");
    for (x, y, dw, dh) in [(1u32, 0u32, 1u32, 0u32), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 2, 1), (1, 0, 0, 0), (0, 1, 0, 0), (u32::MAX, 0, 0, 0), (0, u32::MAX, 0, 0)] {
        op!(Any, 0, 0.0, move |i: &In| { let (w, h) = i.u.info().wh(); if w <= dw || h <= dh { Out::Rejected } else { ri(transform::crop(&i.u, x, y, w - dw, h - dh)) } }, "crop {} {} -{} -{}", x, y, dw, dh);
    }
    for (x, y, a) in [(0u32, 0u32, 0.5004f32), (0, 0, 0.0), (0, 1, 1.0), (u32::MAX, 0, 0.5), (0, 0, -0.1), (0, 0, 1.0001)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::superimpose(&i.f, &i.f2, x, y, a)), "superimpose {} {} {}", x, y, a);
    }
    for (x, y) in [(1u32, 2u32), (1, 0), (0, u32::MAX), (u32::MAX, u32::MAX)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::overlay(&i.u, &i.u2, x, y)), "overlay {} {}", x, y);
    }
    op!(Any, 0, 0.0, |i: &In| ri(transform::overlay(&i.u, &Image::from_vec(1, 1, i.m.c as u8 + 1, false, vec![7; i.m.c + 1]), 0, 0)), "overlay of other channels");
    op!(Any, 0, 0.0, |i: &In| ri(transform::superimpose(&i.f, &Image::from_vec(1, 1, i.m.c as u8 + 1, false, vec![7.0; i.m.c + 1]), 0, 0, 0.5)), "superimpose of other channels");
    for (fx, fy) in [(2.0004f32, 2.0f32), (2.0, 0.5), (0.34, 3.1), (1.0, 1.0), (-1.0, 1.0), (-1.0, -0.5)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::NearestNeighbor)), "scale-nearest {} {}", fx, fy);
        op!(Any, 0, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Bilinear)), "scale-bilinear {} {}", fx, fy);
        op!(Any, 2, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Bicubic)), "scale-bicubic {} {}", fx, fy);
        op!(Any, 2, 0.0, move |i: &In| ri(transform::scale(&i.f, fx, fy, Scale::Lanczos)), "scale-lanczos3 {} {}", fx, fy);
        for n in [1u32, 2, 4] {
            op!(Any, 2, 0.0, move |i: &In| ri(transform::scale_lanczos(&i.f, fx, fy, n)), "scale_lanczos {} {} {}", n, fx, fy);
        }
    }
    for (x, y) in [(1u32, 2u32), (1, 0), (0, 1), (3, 0)] {
        op!(Any, 0, 0.0, move |i: &In| ri(transform::translate(&i.u, x, y)), "translate {} {}", x, y);
    }
    for a in [0.0f32, 30.01, 60.0, 135.0, 180.0, 200.0, 270.0, 300.0, 360.0, -135.0, 765.0] {
        op!(Any, 1, 0.0, move |i: &In| ri(transform::rotate(&i.f, a)), "rotate {}", a);
    }
    for (x, y) in [(0.5004f32, 0.0f32), (0.0, 0.7), (0.5, 0.5), (0.0, 0.0), (-0.5, -0.5)] {
        op!(Any, 1, 0.0, move |i: &In| ri(transform::shear(&i.f, x, y)), "shear {} {}", x, y);
    }
    op!(Any, 0, 0.0, |i: &In| ri(transform::reflect(&i.u, Refl::Horizontal)), "reflect horizontal u8");
    op!(Any, 0, 0.0, |i: &In| ri(transform::reflect(&i.f, Refl::Vertical)), "reflect vertical f32");
    const K3: [f32; 3] = [1.0, 2.0, -0.5];
    const K3B: [f32; 3] = [1.0, 2.0, -0.4996];
    const K5: [f32; 5] = [0.1, 0.2, 0.4, 0.2, 0.1];
    const K5B: [f32; 5] = [0.5, -0.2, 0.3, 0.2, 0.1];
    const K7: [f32; 7] = [1.0, 0.0, -2.0, 0.5, 3.0, 0.25, -1.0];
    for vert in [true, false] {
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &K3B, vert)), "filter_1d 3b {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &K5B, vert)), "filter_1d 5b {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &K7, vert)), "filter_1d 7 {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &[2.0], vert)), "filter_1d 1 {}", vert);
        op!(Any, 0, 0.0, move |i: &In| ri(filter::filter_1d(&i.f, &[], vert)), "filter_1d 0 {}", vert);
    }
    op!(Any, 1, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &K3B, &K3)), "separable_filter 3b");
    op!(Any, 1, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &K5, &K5B)), "separable_filter 5");
    op!(Any, 1, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &K7, &K7)), "separable_filter 7");
    op!(Any, 0, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &K3[..2], &K3[..2])), "separable_filter even");
    op!(Any, 0, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &K7, &K5)), "separable_filter 7 5");
    fn full(n: usize, sym: bool) -> Vec<f32> {
        let mut k: Vec<f32> = (0..n * n).map(|i| ((i * 7 + i * i * 3) % 11) as f32 / 4.0 - 1.0).collect();
        if sym {
            let q = k[0];
            for p in [n - 1, n * n - n, n * n - 1] {
                k[p] = q;
            }
        }
        k
    }
    for n in [3usize, 5, 7, 9] {
        for sym in [false, true] {
            let k = full(n, sym);
            let c = 1 + (n > 5) as u8;
            let k2 = k.clone();
            op!(Any, c, 0.0, move |i: &In| ri(filter::unseparable_filter(&i.f, &k)), "unseparable_filter {} {}", n, sym);
            op!(Any, c, 0.0, move |i: &In| ri(filter::linear_filter(&i.f, &k2)), "linear_filter {} {}", n, sym);
        }
        let k: Vec<f32> = (0..n * n).map(|p| ((p / n) as f32 + 1.0) * ((p % n) as f32 - 0.5)).collect();
        op!(Any, 1, 0.0, move |i: &In| ri(filter::linear_filter(&i.f, &k)), "linear_filter {} outer product", n);
    }
    op!(Any, 0, 0.0, |i: &In| ri(filter::unseparable_filter(&i.f, &[-1.5])), "unseparable_filter 1");
    op!(Any, 0, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[2.5])), "linear_filter 1");
    op!(Any, 0, 0.0, |i: &In| ri(filter::separable_filter(&i.f, &[2.5], &[-0.5])), "separable_filter 1");
    op!(Any, 0, 0.0, |i: &In| ri(filter::derivative_mask(&i.f, &[2.5], &[-0.5])), "derivative_mask 1");
    op!(Any, 1, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[0.0; 9])), "linear_filter zero");
    op!(Any, 0, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[1.0; 8])), "linear_filter even");
    op!(Any, 0, 0.0, |i: &In| ri(filter::linear_filter(&i.f, &[1.0; 15])), "linear_filter not square");
    op!(Any, 0, 0.0, |i: &In| ri(filter::unseparable_filter(&i.f, &[1.0; 15])), "unseparable_filter not square");
    for n in [7u32, 9, 2, 0, 17] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::box_filter(&i.f, n)), "box_filter {}", n);
    }
    for (n, w) in [(3u32, 2u32), (3, 0), (3, 11), (7, 9), (4, 10), (0, 1)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::weighted_avg_filter(&i.f, n, w)), "weighted_avg_filter {} {}", n, w);
    }
    for (n, s) in [(3u32, 1.2f32), (3, 1.0004), (5, 1.4), (7, 1.0), (9, 2.0), (2, 1.0), (5, 4.0), (5, 4.05), (3, 3.13), (3, 3.2), (3, 30.0), (3, 30.5)] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::gaussian_blur(&i.f, n, s)), "gaussian_blur {} {}", n, s);
        op!(Any, 1 + (n > 5) as u8, 0.0, move |i: &In| ri(filter::laplacian_of_gaussian(&i.f, n, s)), "laplacian_of_gaussian {} {}", n, s);
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_gaussian_kernel(n, s)), "generate_gaussian_kernel {} {}", n, s);
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_log_kernel(n, s)), "generate_log_kernel {} {}", n, s);
        op!(Any, 0, 0.0, move |_: &In| rv(util::generate_spatial_mat(n, s)), "generate_spatial_mat {} {}", n, s);
    }
    op!(Any, 0, 0.0, |_: &In| rv(util::generate_spatial_mat(3, -1.0)), "generate_spatial_mat 3 -1");
    for k in 0..5usize {
        for (t, m) in [(127.3f32, 255.0f32), (127.0, 254.6), (-1.0, 255.0), (255.0, 255.0), (127.0, 0.0)] {
            op!(Any, 0, 0.0, move |i: &In| ri(filter::threshold(&i.f, t, m, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv })), "threshold-{} {} {}", k, t, m);
        }
    }
    op!(Any, 0, 0.0, |i: &In| ri(filter::residual(&i.f, &i.f)), "residual of itself");
    for w in [0u32, 1, 3, 100] {
        op!(Any, 1, 0.0, move |i: &In| ri(filter::sobel_weighted(&i.f, w)), "sobel_weighted {}", w);
    }
    op!(Any, 1, 0.0, |i: &In| ri(filter::derivative_mask(&i.f, &K3B, &K3)), "derivative_mask 3b");
    op!(Any, 1, 0.0, |i: &In| ri(filter::derivative_mask(&i.f, &K5, &K5B)), "derivative_mask 5");
    op!(Any, 0, 0.0, |i: &In| ri(filter::derivative_mask(&i.f, &K5, &K3)), "derivative_mask 5 3");
    op!(Any, 0, 0.0, |i: &In| ri(filter::derivative_mask(&i.f, &K5[..4], &K5[..4])), "derivative_mask even");
    for r in [4u32, 5, 8] {
        op!(Any, 2, 0.0, move |i: &In| ri(filter::median_filter(&i.u, r)), "median_filter {}", r);
    }
    for (r, a) in [(1u32, 4u32), (1, 8), (1, 9), (2, 0), (2, 24), (3, 6), (0, 0), (4, 10), (2, 5)] {
        op!(Any, 1 + (r > 2) as u8, 0.0, move |i: &In| ri(filter::alpha_trimmed_mean_filter(&i.u, r, a)), "alpha_trimmed_mean_filter {} {}", r, a);
    }
    for (r, s) in [(20.3f32, 0.5f32), (20.0, 0.6), (5.0, 1.0), (20.0, 1.5), (20.0, -1.0), (-1.0, -1.0), (100.0, 0.5)] {
        op!(Rgb, 2, 1.0, move |i: &In| ri(filter::bilateral_filter(&i.u, r, s, Bilateral::Direct)), "bilateral_filter {} {}", r, s);
    }
    for r in [0u32, 3, 4, 9] {
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::erode(&bin(i), r)), "erode {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::dilate(&bin(i), r)), "dilate {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::majority(&bin(i), r)), "majority {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::open(&bin(i), r)), "open {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::close(&bin(i), r)), "close {}", r);
        op!(Any, 0, 0.0, move |i: &In| ri(morphology::gradient(&bin(i), r)), "gradient {}", r);
    }
    for p in [2.01f32, 1.0, 0.1, 10.0] {
        op!(Any, 0, 0.0, move |i: &In| { let mut t = std::collections::HashMap::new(); util::generate_histogram_percentiles(&i.f, &mut t, p); let mut k: Vec<_> = t.into_iter().collect(); k.sort_by_key(|x| x.0); Out::Vals(k.into_iter().flat_map(|(a, b)| [a as f64, b as f64]).collect()) }, "generate_histogram_percentiles {}", p);
    }
    for s in [1.0f32, 1e-3, 1e3] {
        op!(Any, 0, 0.0, move |_: &In| { let k: Vec<f32> = [1.0f32, 2.0, 1.5, 2.0, 4.0, 3.0, 1.0, 2.0, 1.5].iter().map(|v| v * s).collect(); match util::separate_kernel(&k) { Some((a, b)) => vals(&[a, b].concat()), None => Out::Rejected } }, "separate_kernel {}", s);
    }
    op!(Any, 0, 0.0, |i: &In| { let d: Vec<f32> = i.f.data().iter().cycle().take(20).cloned().collect(); rv(util::vector_mul(&d[..16], &d[16..])) }, "vector_mul 4");
    op!(Any, 0, 0.0, |i: &In| { let d: Vec<f32> = i.f.data().iter().cycle().take(20).cloned().collect(); rv(util::vector_mul(&d[..9], &d[9..13])) }, "vector_mul mismatch");
    v
}

/// families of nearly equal arguments for the functions of 8-bit images with a real parameter
pub fn near_ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut add = |name: String, kind: Kind, cost: u8, f: Box<dyn Fn(&In) -> Out + Send + Sync>| v.push(Op { name, kind, cost, levels: 0.0, rep: false, more: true, f });
    use Kind::*;
    for b in [0.1f32, 0.35, 0.5, 0.9] {
        for d in [0.0f32, 1e-5, 1e-4, 4e-4, 9e-4, 4e-3, 9e-3, 0.04, 0.09] {
            let g = b + d;
            add(format!("contrast {}", g), Any, 0, Box::new(move |i: &In| ri(tone::contrast(&i.u, g))));
            add(format!("contrast_lab {}", g), Rgb, 1, Box::new(move |i: &In| ri(tone::contrast_lab(&i.u, g))));
            let (g1, g2) = (4.0 * g, 1.0 + 4.0 * g);
            add(format!("gamma {} 255", g1), Any, 0, Box::new(move |i: &In| ri(tone::gamma(&i.u, g1, 255))));
            add(format!("gamma {} 255", g2), Any, 0, Box::new(move |i: &In| ri(tone::gamma(&i.u, g2, 255))));
            add(format!("histogram_equalization {}", g), Rgb, 1, Box::new(move |i: &In| ri(tone::histogram_equalization(&i.u, g, &White::D65, 255.0))));
        }
    }
    // larger windows: the size of the window alone does not determine its weights
    for s in [0.3f32, 0.4, 1.3, 1.4, 2.5, 2.8, 3.6, 3.9] {
        for r in [2.0f32, 9.0] {
            add(format!("bilateral_filter {} {}", r, s), Rgb, 2, Box::new(move |i: &In| ri(filter::bilateral_filter(&i.u, r, s, Bilateral::Direct))));
        }
    }
    for n in [5u32, 7, 11, 15] {
        for s in [1.4f32, 1.9, 3.3] {
            add(format!("generate_gaussian_kernel {} {}", n, s), Any, 0, Box::new(move |_: &In| rv(util::generate_gaussian_kernel(n, s))));
            add(format!("generate_log_kernel {} {}", n, s), Any, 0, Box::new(move |_: &In| rv(util::generate_log_kernel(n, s))));
            add(format!("generate_spatial_mat {} {}", n, s), Any, 0, Box::new(move |_: &In| rv(util::generate_spatial_mat(n, s))));
            if n == 11 {
                add(format!("gaussian_blur {} {}", n, s), Any, 1, Box::new(move |i: &In| ri(filter::gaussian_blur(&i.f, n, s))));
                add(format!("laplacian_of_gaussian {} {}", n, s), Any, 1, Box::new(move |i: &In| ri(filter::laplacian_of_gaussian(&i.f, n, s))));
            }
        }
    }
    // arguments that agree in their low bits
    const D: [u32; 8] = [0, 8, 16, 32, 64, 128, 256, 65536];
    for d in D {
        if d <= 128 {
            let b = d as i16;
            for b in [3 + b, -125 - b] {
                add(format!("brightness {}", b), Any, 0, Box::new(move |i: &In| ri(tone::brightness(&i.u, b))));
                add(format!("brightness_lab {}", b), Rgb, 1, Box::new(move |i: &In| ri(tone::brightness_lab(&i.u, b))));
                add(format!("saturation {}", b), Rgb, 0, Box::new(move |i: &In| ri(tone::saturation(&i.u, b))));
            }
            let m = 70 + d as u8;
            add(format!("gamma 1.8 {}", m), Any, 0, Box::new(move |i: &In| ri(tone::gamma(&i.u, 1.8, m))));
            let t = 20.5 + d as f32;
            for k in 0..5usize {
                add(format!("threshold {} {}", t, k), Gray, 0, Box::new(move |i: &In| ri(filter::threshold(&i.f, t, 2.0 * t, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv }))));
                add(format!("threshold 99 {} {}", 50.0 + t, k), Gray, 0, Box::new(move |i: &In| ri(filter::threshold(&i.f, 99.0, 50.0 + t, match k { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv }))));
            }
            let a = 30.0 + if d == 128 { 360.0 } else { d as f32 };
            add(format!("rotate {}", a), Any, 1, Box::new(move |i: &In| ri(transform::rotate(&i.f, a))));
            let q = 2 * (d / 8).min(11);
            add(format!("alpha_trimmed_mean_filter 2 {}", q), Any, 1, Box::new(move |i: &In| ri(filter::alpha_trimmed_mean_filter(&i.u, 2, q))));
        }
        let w = 3 + d;
        add(format!("weighted_avg_filter 3 {}", w), Any, 1, Box::new(move |i: &In| ri(filter::weighted_avg_filter(&i.f, 3, w))));
        add(format!("weighted_avg_filter 5 {}", w), Any, 1, Box::new(move |i: &In| ri(filter::weighted_avg_filter(&i.f, 5, w))));
        add(format!("sobel_weighted {}", w), Gray, 1, Box::new(move |i: &In| ri(filter::sobel_weighted(&i.f, w))));
        add(format!("u8_to_f32_scale {}", w), Any, 0, Box::new(move |i: &In| im(convert::u8_to_f32_scale(&i.u, w))));
        add(format!("f32_to_u8_scale {}", 100 + d), Any, 0, Box::new(move |i: &In| im(convert::f32_to_u8_scale(&i.f, 100 + d))));
        for (x, y) in [(1 + d, 2), (1, 2 + d)] {
            add(format!("translate {} {}", x, y), Any, 0, Box::new(move |i: &In| ri(transform::translate(&i.u, x, y))));
            add(format!("overlay {} {}", x, y), Any, 0, Box::new(move |i: &In| ri(transform::overlay(&i.u, &i.u2, x, y))));
            add(format!("superimpose {} {}", x, y), Any, 0, Box::new(move |i: &In| ri(transform::superimpose(&i.f, &i.f2, x, y, 0.25))));
        }
        if d < 32 {
            for (x, y, w, h) in [(d, 0, 3, 2), (0, d / 8, 3, 2), (0, 0, 3 + d, 2), (0, 0, 2, 3 + d / 8), (d, 1, 8, 4), (1, 2, 4, 2 + d / 8)] {
                add(format!("crop {} {} {} {}", x, y, w, h), Any, 0, Box::new(move |i: &In| ri(transform::crop(&i.u, x, y, w, h))));
            }
        }
        let r = 1 + d;
        add(format!("erode {}", r), Any, 0, Box::new(move |i: &In| ri(morphology::erode(&bin(i), r))));
        add(format!("dilate {}", r), Any, 0, Box::new(move |i: &In| ri(morphology::dilate(&bin(i), r))));
        add(format!("majority {}", r), Any, 0, Box::new(move |i: &In| ri(morphology::majority(&bin(i), r))));
        if d <= 16 {
            add(format!("median_filter {}", r), Any, 1, Box::new(move |i: &In| ri(filter::median_filter(&i.u, r))));
            add(format!("box_filter {}", 3 + d), Any, 1, Box::new(move |i: &In| ri(filter::box_filter(&i.f, 3 + d))));
            add(format!("gaussian_blur {}", 3 + d), Any, 1, Box::new(move |i: &In| ri(filter::gaussian_blur(&i.f, 3 + d, 1.5))));
        }
        let s = 1.5 + d as f32;
        add(format!("gaussian_blur 3 {}", s), Any, 1, Box::new(move |i: &In| ri(filter::gaussian_blur(&i.f, 3, s))));
        add(format!("laplacian_of_gaussian 3 {}", s), Any, 1, Box::new(move |i: &In| ri(filter::laplacian_of_gaussian(&i.f, 3, s))));
        add(format!("generate_gaussian_kernel 3 {}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_gaussian_kernel(3, s))));
        add(format!("generate_log_kernel 3 {}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_log_kernel(3, s))));
        add(format!("generate_spatial_mat 3 {}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_spatial_mat(3, s))));
    }
    // arguments that differ in their last bits
    for u in [0u32, 1, 2, 3, 5, 8, 17, 40, 129, 260] {
        let g = |x: f32| f32::from_bits(x.to_bits() + u);
        for (k, s) in [g(0.9), g(1.6), g(3.25)].into_iter().enumerate() {
            add(format!("generate_gaussian_kernel 5 {:?}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_gaussian_kernel(5, s))));
            add(format!("generate_log_kernel 5 {:?}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_log_kernel(5, s))));
            add(format!("generate_spatial_mat 5 {:?}", s), Any, 0, Box::new(move |_: &In| rv(util::generate_spatial_mat(5, s))));
            if k < 2 {
                add(format!("gaussian_blur 5 {:?}", s), Any, 1, Box::new(move |i: &In| ri(filter::gaussian_blur(&i.f, 5, s))));
                add(format!("laplacian_of_gaussian 5 {:?}", s), Any, 1, Box::new(move |i: &In| ri(filter::laplacian_of_gaussian(&i.f, 5, s))));
                add(format!("rotate {:?}", 20.0 * s), Any, 1, Box::new(move |i: &In| ri(transform::rotate(&i.f, 20.0 * s))));
            }
        }
        let w = [1.0, g(2.0), 1.0];
        add(format!("filter_1d {:?}", w), Any, 0, Box::new(move |i: &In| ri(filter::filter_1d(&i.f, &w, false))));
        add(format!("separable_filter {:?}", w), Any, 0, Box::new(move |i: &In| ri(filter::separable_filter(&i.f, &w, &w))));
        let q: Vec<f32> = (0..9).map(|j| if j == 4 { g(2.5) } else { 1.0 + (j % 4) as f32 }).collect();
        add(format!("unseparable_filter {:?}", q), Any, 1, Box::new(move |i: &In| ri(filter::unseparable_filter(&i.f, &q))));
    }
    // kernels with the same length and the same sum, extremes, first or last weight
    let ks: [[f32; 3]; 8] = [[1.0, 2.0, 3.0], [1.0, 3.0, 2.0], [2.0, 1.0, 3.0], [2.0, 3.0, 1.0], [3.0, 1.0, 2.0], [3.0, 2.0, 1.0], [1.0, 4.0, 1.0], [-1.0, 2.0, 5.0]];
    for (n, k) in ks.into_iter().enumerate() {
        for vert in [true, false] {
            add(format!("filter_1d {:?} {}", k, vert), Any, 0, Box::new(move |i: &In| ri(filter::filter_1d(&i.f, &k, vert))));
        }
        add(format!("separable_filter {:?} 1", k), Any, 0, Box::new(move |i: &In| ri(filter::separable_filter(&i.f, &k, &[1.0, 2.0, 4.0]))));
        add(format!("separable_filter 1 {:?}", k), Any, 0, Box::new(move |i: &In| ri(filter::separable_filter(&i.f, &[1.0, 2.0, 4.0], &k))));
        add(format!("derivative_mask {:?}", k), Any, 0, Box::new(move |i: &In| ri(filter::derivative_mask(&i.f, &k, &[1.0, 2.0, 4.0]))));
        // the nine weights 1..=9 rotated, or with two of them exchanged
        let q: Vec<f32> = (0..9).map(|j| if n < 4 { ((j + n * 2) % 9 + 1) as f32 } else if j == n { (n + 2) as f32 } else if j == n + 1 { (n + 1) as f32 } else { (j + 1) as f32 }).collect();
        let p: Vec<f32> = (0..9).map(|j| k[j / 3] * k[j % 3]).collect();
        let q2 = q.clone();
        let p2 = p.clone();
        add(format!("unseparable_filter {:?}", q), Any, 1, Box::new(move |i: &In| ri(filter::unseparable_filter(&i.f, &q))));
        add(format!("linear_filter {:?}", q2), Any, 1, Box::new(move |i: &In| ri(filter::linear_filter(&i.f, &q2))));
        add(format!("linear_filter {:?}", p), Any, 1, Box::new(move |i: &In| ri(filter::linear_filter(&i.f, &p))));
        add(format!("separate_kernel {:?}", p2), Any, 0, Box::new(move |_: &In| match util::separate_kernel(&p2) { Some((a, b)) => vals(&[a, b].concat()), None => Out::Rejected }));
    }
    v
}

/// the name of the function an operation calls
pub fn func(n: &str) -> &str {
    n.split([' ', '-', '(']).next().unwrap()
}

/// input states: contents x shapes x layouts
pub fn input(w: usize, h: usize, c: usize, alpha: bool, k: usize) -> M {
    match k {
        0 => mix_img(w, h, c, alpha, w * 131 + h),
        1 => label_img(w, h, c, alpha, h),
        _ => M::gen(w, h, c, alpha, |x, y, q| ((x * 40 + y * 25 + q * 60) % 256) as f64),
    }
}

/// appends an outcome to a record
pub fn put(f: &mut Vec<u8>, o: Option<&Out>) {
    let nums = |f: &mut Vec<u8>, d: &[f64]| {
        f.extend((d.len() as u32).to_le_bytes());
        if d.iter().all(|v| *v >= 0.0 && *v <= 255.0 && v.fract() == 0.0 && v.is_sign_positive()) {
            f.push(1);
            f.extend(d.iter().map(|v| *v as u8));
        } else {
            f.push(4);
            for v in d {
                f.extend((*v as f32).to_le_bytes());
            }
        }
    };
    match o {
        None => f.push(9),
        Some(Out::Rejected) => f.push(0),
        Some(Out::Img { w, h, c, alpha, float, d }) => {
            f.push(1);
            for v in [*w, *h, *c, *alpha as usize + 2 * *float as usize] {
                f.extend((v as u32).to_le_bytes());
            }
            nums(f, d);
        }
        Some(Out::Vals(d)) => {
            f.push(2);
            nums(f, d);
        }
    }
}

/// reads the next outcome of a record
pub fn get(b: &[u8], p: &mut usize) -> Option<Out> {
    let u = |p: &mut usize| {
        let v = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap());
        *p += 4;
        v as usize
    };
    let nums = |p: &mut usize| {
        let n = u(p);
        let k = b[*p];
        *p += 1;
        let mut d = Vec::with_capacity(n);
        for _ in 0..n {
            if k == 1 {
                d.push(b[*p] as f64);
                *p += 1;
            } else {
                d.push(f32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as f64);
                *p += 4;
            }
        }
        d
    };
    let t = b[*p];
    *p += 1;
    match t {
        9 => None,
        0 => Some(Out::Rejected),
        1 => {
            let (w, h, c, a) = (u(p), u(p), u(p), u(p));
            Some(Out::Img { w, h, c, alpha: a & 1 != 0, float: a & 2 != 0, d: nums(p) })
        }
        _ => Some(Out::Vals(nums(p))),
    }
}

/// the same outcome up to float rounding
pub fn same(op: &Op, want: &Out, got: &Out) -> Result<(), String> {
    let (a, b, float) = match (want, got) {
        (Out::Rejected, Out::Rejected) => return Ok(()),
        (Out::Img { w, h, c, alpha, d, float }, Out::Img { w: w2, h: h2, c: c2, alpha: a2, d: d2, .. }) if (w, h, c, alpha) == (w2, h2, c2, a2) => (d, d2, *float),
        (Out::Vals(d), Out::Vals(d2)) => (d, d2, true),
        _ => return Err(format!("{} instead of {}", got.show(), want.show())),
    };
    if a.len() != b.len() {
        return Err(format!("{} samples instead of {}", b.len(), a.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let y = *y as f32 as f64;
        let ok = x == &y || (x.is_nan() && y.is_nan()) || if float { (x - y).abs() <= 1e-4 * x.abs().max(y.abs()).max(1.0) } else { (x - y).abs() <= op.levels };
        if !ok {
            return Err(format!("sample {} is {} instead of {}", i, y, x));
        }
    }
    Ok(())
}

