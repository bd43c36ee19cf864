//! Histogram percentiles: reference definition and the groups of C12 and C31 that explore them.
use crate::*;
use imgproc_rs::image::Image;
use imgproc_rs::util::generate_histogram_percentiles;
use std::collections::HashMap;

/// quantised lightness levels and percentiles, as intervals where a lightness lies next to a quantisation boundary
pub struct Levels {
    pub lo: Vec<i64>,
    pub hi: Vec<i64>,
    slo: Vec<i64>,
    shi: Vec<i64>,
}
impl Levels {
    /// `slack`: by how much the lightness itself may differ
    pub fn new(ls: &[f64], precision: f64, slack: f64) -> Levels {
        let (lo, hi): (Vec<i64>, Vec<i64>) = ls
            .iter()
            .map(|l| {
                let q = l * precision;
                let tol = 4e-7 * q.abs() + 1e-12 + slack * precision.abs();
                ((q - tol).round() as i64, (q + tol).round() as i64)
            })
            .unzip();
        let (mut slo, mut shi) = (lo.clone(), hi.clone());
        slo.sort();
        shi.sort();
        Levels { lo, hi, slo, shi }
    }
    /// the smallest and the largest possible fraction of pixels of at most level k
    pub fn p(&self, k: i64) -> (f64, f64) {
        let n = self.lo.len() as f64;
        (self.shi.partition_point(|&v| v <= k) as f64 / n, self.slo.partition_point(|&v| v <= k) as f64 / n)
    }
    /// the table has exactly the levels that occur, each with its percentile, and 1 for the brightest
    pub fn check(&self, table: &HashMap<i32, f32>) -> Result<(), String> {
        let mut keys: Vec<i64> = table.keys().map(|&k| k as i64).collect();
        keys.sort();
        for (&a, &b) in self.lo.iter().zip(&self.hi) {
            if !(a..=b).any(|k| table.contains_key(&(k as i32))) {
                return Err(format!("no percentile for level {}", a));
            }
        }
        let mut possible: Vec<i64> = self.lo.iter().zip(&self.hi).flat_map(|(&a, &b)| a..=b).collect();
        possible.sort();
        possible.dedup();
        let mut last = 0.0f32;
        for &k in &keys {
            if possible.binary_search(&k).is_err() {
                return Err(format!("level {} in the table does not occur ({} levels, expected {})", k, keys.len(), possible.len()));
            }
            let (v, (a, b)) = (table[&(k as i32)], self.p(k));
            if !(v as f64 >= a - 1e-6 && v as f64 <= b + 1e-6) {
                return Err(format!("percentile of level {} is {:?}, should be {}", k, v, if a == b { format!("{}", a) } else { format!("{} to {}", a, b) }));
            }
            if v < last {
                return Err(format!("percentile of level {} is less than that of a darker level", k));
            }
            last = v;
        }
        if last != 1.0 {
            return Err(format!("the percentile of the brightest level is {:?}, not exactly 1", last));
        }
        Ok(())
    }
}

/// the percentile table of arbitrary lightness values, negative and beyond 100 included
pub fn table_case(t: &mut T, w: usize, h: usize, c: usize, ls: &[f32], prec: f32) {
    t.case(
        || format!("percentiles of {}x{}x{} at precision {}: lightness {:?}", w, h, c, prec, &ls[..ls.len().min(12)]),
        |t| {
            let img = Image::from_vec(w as u32, h as u32, c as u8, false, (0..w * h * c).map(|i| if i % c == 0 { ls[i / c] } else { mix_u8(i, 3) as f32 }).collect());
            let mut table: HashMap<i32, f32> = HashMap::new();
            t.imp(|| generate_histogram_percentiles(&img, &mut table, prec))?;
            t.seen_f32(prec.to_bits() as u64, ls);
            let ld: Vec<f64> = ls.iter().map(|&v| v as f64).collect();
            Levels::new(&ld, prec as f64, 0.0).check(&table)?;
            Ok(())
        },
    );
}

/// percentile tables of all small images over a few lightness values
pub fn word_tables(e: &Engine) {
    e.par("tables of words", "percentile tables of all images of up to 5 pixels over 7 lightness values (negative, 0, fractional, 100 and beyond), 3 precisions", 7 * 7, |t, i| {
        let lv = [-100.0f32, -1.0, 0.0, 0.3, 50.0, 100.0, 120.0];
        for n in 1..=5usize {
            for j in 0..pow(7, n.saturating_sub(2)) {
                let code = j * 49 + i;
                if n == 1 && i >= 7 {
                    continue;
                }
                let ls: Vec<f32> = (0..n).map(|p| lv[code / pow(7, p) % 7]).collect();
                for prec in [1.0f32, 10.0, 0.5] {
                    table_case(t, n, 1, 1, &ls, prec);
                    if n == 4 {
                        table_case(t, 2, 2, 3, &ls, prec);
                    }
                }
            }
        }
    });
    e.par("tables of ramps", "percentile tables of images with up to 1.1 million pixels and as many levels, 5 precisions", 10, |t, i| {
        let (w, h) = [(1usize, 300usize), (300, 1), (17, 31), (257, 256), (66000, 1), (256, 5), (64, 64), (3, 1000), (1101, 1003), (5, 210001)][i];
        for prec in [1.0f32, 3.0, 255.0, 1000.0, 0.01] {
            for kind in 0..5usize {
                let ls: Vec<f32> = (0..w * h)
                    .map(|p| match kind {
                        0 => p as f32 / (w * h) as f32 * 100.0,
                        1 => -(p as f32) / 7.0,
                        2 => mix_u8(p, 9) as f32 - 128.0,
                        3 => 33.25,
                        _ => mix_u8(p, 4) as f32 / 2.55 - mix_u8(p, 5) as f32 / 1000.0,
                    })
                    .map(|l| if kind == 4 { l } else { ((l * prec).round() + 0.2) / prec })
                    .collect();
                table_case(t, w, h, 1 + (i % 3) * 2, &ls, prec);
            }
        }
    });
}
