//! One integer decides everything: every choice comes from this generator.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng(mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ mix(stream.wrapping_add(0x1234_5678))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub const SPECIALS: [f64; 26] = [
    0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN,
    f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 1e-8, 1e-160, 1e160,
    -1e300, 3.4e38, 1e-40, 1.5707963267948966, 3.141592653589793,
];

/// How argument words of one run are drawn (swarm style: chosen per run).
#[derive(Clone)]
pub struct Palette {
    kind: u64,
    pool: Vec<f64>,
}
impl Palette {
    pub fn new(r: &mut Rng) -> Palette {
        let kind = r.below(12);
        let mut p = Palette { kind, pool: vec![] };
        let n = 2 + r.below(6);
        for _ in 0..n {
            let w = p.fresh(r);
            p.pool.push(w);
        }
        p
    }
    /// ordinary finite values only
    pub fn tame(r: &mut Rng) -> Palette {
        let mut p = Palette { kind: r.below(4), pool: vec![] };
        for _ in 0..4 {
            let w = p.fresh(r);
            p.pool.push(w);
        }
        p
    }
    fn fresh(&self, r: &mut Rng) -> f64 {
        match self.kind {
            0 => r.range(-3, 3) as f64,
            1 => r.range(-40, 40) as f64 / 4.0,
            2 => (r.unit() - 0.5) * 20.0,
            3 => {
                let e = r.range(-12, 12) as f64;
                (r.unit() - 0.5) * 10f64.powf(e)
            }
            4 => *r.pick(&SPECIALS),
            5 | 6 => {
                if r.chance(1, 3) {
                    *r.pick(&SPECIALS)
                } else {
                    (r.unit() - 0.5) * 20.0
                }
            }
            7 => {
                let e = r.range(-320, 308) as f64;
                (r.unit() - 0.5) * 10f64.powf(e)
            }
            8 => r.range(-1, 1) as f64,
            // collisions of the special classes
            10 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -2.5]),
            // angles, in radians and degrees
            11 => {
                let a = *r.pick(&[15.0, 30.0, 45.0, 60.0, 90.0, 120.0, 180.0, 270.0, 360.0, 540.0, 720.0]) * *r.pick(&[1.0, -1.0, core::f64::consts::PI / 180.0, -core::f64::consts::PI / 180.0]);
                a + *r.pick(&[0.0, 0.0, 1e-15, -1e-15, 1e-6])
            }
            _ => {
                if r.chance(1, 12) {
                    *r.pick(&SPECIALS)
                } else {
                    r.range(-9, 9) as f64 / 3.0
                }
            }
        }
    }
    pub fn word(&self, r: &mut Rng) -> f64 {
        if r.chance(1, 2) {
            *r.pick(&self.pool)
        } else {
            self.fresh(r)
        }
    }
    pub fn words(&self, r: &mut Rng, n: usize) -> Vec<f64> {
        let mut v: Vec<f64> = (0..n).map(|_| self.word(r)).collect();
        if r.chance(1, 5) {
            // arguments that (nearly) repeat each other: equal, opposite, parallel, almost so
            let k = *r.pick(&[1usize, 2, 3, 4, 4, 4, 6, 8, 9, 16]);
            if r.chance(1, 2) {
                for b in v.chunks_mut(k) {
                    let n = b.iter().map(|x| x * x).sum::<f64>().sqrt();
                    if n > 0.0 && n.is_finite() {
                        b.iter_mut().for_each(|x| *x /= n);
                    }
                }
            }
            let eps = *r.pick(&[0.0, 1e-16, 1e-12, 1e-8, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]);
            let neg = r.chance(1, 3);
            for i in k..n {
                let x = v[i % k] + eps * (r.unit() - 0.5);
                v[i] = if neg && (i / k) % 2 == 1 { -x } else { x };
            }
        }
        v
    }
}
