//! A07 primality and inverses, A08 centred binomial sampling, A09 bit packing.
use crate::core::*;
use crate::model::*;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis};
use fhe_math::zq::{Modulus, primes::generate_prime};
use fhe_util::{inverse, is_prime, sample_vec_cbd, transcode_bidirectional, transcode_from_bytes, transcode_to_bytes};
use rand::{TryCryptoRng, TryRng};
use std::convert::Infallible;

// ------------------------------------------------------------------------------------------ A07
pub fn a07(r: &Rep) {
    let t = r.thorough;
    r.assume("reference primality: sieve below the exhaustive bound, deterministic Miller-Rabin over the first twelve primes above it");
    let bits = if t { 29 } else { 24 };
    r.suite("is-prime-exhaustive", &format!("every integer below 2^{bits} against a sieve"), |s| {
        let n = 1usize << bits;
        let mut sieve = vec![true; n];
        sieve[0] = false;
        sieve[1] = false;
        let mut i = 2;
        while i * i < n {
            if sieve[i] {
                let mut j = i * i;
                while j < n {
                    sieve[j] = false;
                    j += i;
                }
            }
            i += 1;
        }
        let ch = 1 << 14;
        let sv = &sieve;
        s.par_n(n / ch, |k| {
            for x in k * ch..(k + 1) * ch {
                at([x as u128, 0, 0, 0, 0, 0]);
                if is_prime(x as u64) != sv[x] {
                    s.fail(&format!("x={x}"), &format!("is_prime({x}) = {}", !sv[x]));
                }
            }
            s.cases(ch as u64);
            s.states(ch as u64);
            s.transitions(ch as u64);
        });
        s.outcome(0);
        s.outcome(1);
    });
    r.suite("is-prime-hard", "pseudoprime families ((k+1)(rk+1), Chernick Carmichael numbers, prime squares, products p(a(p-1)+1)(b(p-1)+1), the published least strong pseudoprimes to the first prime bases, products of 32-bit primes) and windows around every power of two and the u64 limit", |s| {
        let kmax = if t { 4_000_000u64 } else { 300_000 };
        s.par_n(16, |w| {
            let mut n = 0;
            let chk = |x: u64, s: &Suite| {
                at([x as u128, 0, 0, 0, 0, 0]);
                if is_prime(x) != is_prime64(x) {
                    s.fail(&format!("x={x}"), &format!("is_prime({x}) = {}", !is_prime64(x)));
                }
            };
            for k in (1 + w as u64..kmax).step_by(16) {
                if is_prime64(k + 1) {
                    for rr in [2u64, 3, 4, 5, 6, 7, 8, 9, 10] {
                        if is_prime64(rr * k + 1) {
                            chk((k + 1) * (rr * k + 1), s);
                            n += 1;
                        }
                    }
                    chk((k + 1) * (k + 1), s);
                    n += 1;
                }
                let (a, b, c) = (6 * k + 1, 12 * k + 1, 18 * k + 1);
                if k < 2_000_000 && is_prime64(a) && is_prime64(b) && is_prime64(c) {
                    if let Some(x) = a.checked_mul(b).and_then(|x| x.checked_mul(c)) {
                        chk(x, s);
                        n += 1;
                    }
                }
            }
            let win = if t { 20000u64 } else { 1500 };
            for b in (20 + w as u32..=64).step_by(16) {
                for d in 0..win {
                    if b < 64 {
                        chk((1u64 << b) + d, s);
                    }
                    chk(((1u128 << b) - 1 - d as u128) as u64, s);
                    n += 2;
                }
            }
            // strong pseudoprimes to the first prime bases, and Carmichael numbers with many factors
            if w == 0 {
                for x in [
                    2047u64, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 4759123141, 1122004669633, 21652684502221, 118670087467, 307768373641, 315962312077, 354864744877, 457453568161, 528929554561,
                    546348519181, 602248359169, 1362242655901, 10710604680091, 4498414682539051, 6830509209595831, 3186394843261, 8038374574536394912 + 1, 47636622961201, 75792980677, 84983557, 3070723981, 31800210691, 9080191, 4335207, 316349281, 231664891,
                    25326001, 161304001, 960946321, 1157839381, 3697278427, 5764643587, 6770862367, 14386156093, 15579919981, 18459366157, 19887974881, 21276028621, 56052361, 118901521, 172947529, 216821881, 228842209, 825265, 321197185, 5394826801, 232250619601, 9746347772161,
                ] {
                    chk(x, s);
                    n += 1;
                }
            }
            // products p (a(p-1)+1) (b(p-1)+1), the shape of the numbers that pass many strong tests
            for p in (3 + 2 * w as u64..if t { 60_000 } else { 6_000 }).step_by(32) {
                if !is_prime64(p) {
                    continue;
                }
                let f: Vec<u64> = (2..if t { 300u64 } else { 64 }).filter(|a| is_prime64(a * (p - 1) + 1)).collect();
                for (i, a) in f.iter().enumerate() {
                    for b in &f[i + 1..] {
                        let v = p as u128 * (a * (p - 1) + 1) as u128 * (b * (p - 1) + 1) as u128;
                        if v < 1 << 64 {
                            chk(v as u64, s);
                            n += 1;
                        }
                    }
                }
            }
            let mut l = Lcg(w as u64);
            for _ in 0..200 {
                let p = ntt_primes(32, 2 + 2 * l.below(1000), 1);
                let q = ntt_primes(31 + (l.below(2) as u32), 2 + 2 * l.below(1000), 1);
                if let (Some(p), Some(q)) = (p.first(), q.first()) {
                    chk(p * q, s);
                    n += 1;
                }
            }
            s.cases(n);
            s.states(n);
            s.transitions(n);
        });
    });
    let nb_top = if t { 13 } else { 11 };
    r.suite("generate-prime-exhaustive", &format!("num_bits 0..=9 and 63..=80 (none), 10..={nb_top} with every upper bound 0..=2^num_bits and every modulo in 1..=40, 64, 2^k and beyond the range"), |s| {
        for nb in (0..10usize).chain(63..=80) {
            for m in [1, 2, 16, 1024] {
                s.case(&format!("nb={nb} m={m}"), || match generate_prime(nb, m, 1 << nb.min(62)) {
                    None => Ok(1),
                    Some(p) => Err(format!("returned {p}")),
                });
            }
        }
        let mut items = vec![];
        for nb in 10..=nb_top {
            for m in (1..=40u64).chain([64, 128, 256, 512, 1024, 2048, 4096, 1 << 20]) {
                items.push((nb, m));
            }
        }
        s.par(&items, |&(nb, m)| {
            let mut best: Option<u64> = None;
            let mut n = 0;
            for ub in 0..=(1u64 << nb) {
                if ub > 0 {
                    let c = ub - 1;
                    if c >> (nb - 1) == 1 && c % m == 1 % m && is_prime_naive(c) {
                        best = Some(c);
                    }
                }
                at([nb as u128, m as u128, ub as u128, 0, 0, 0]);
                match guard(|| generate_prime(nb, m, ub)) {
                    Ok(g) if g == best => {}
                    Ok(g) => s.fail(&format!("nb={nb} m={m} ub={ub}"), &format!("generate_prime({nb},{m},{ub}) = {g:?}, expected {best:?}")),
                    Err(p) => s.fail(&format!("nb={nb} m={m} ub={ub}"), &format!("generate_prime({nb},{m},{ub}) panicked: {p}")),
                }
                n += 1;
                if s.stop() {
                    return;
                }
            }
            s.outcome(h64(&best));
            s.cases(n);
            s.states(n);
            s.transitions(n);
        });
    });
    r.suite("generate-prime-sizes", "num_bits 14..=62 with modulo 2..=2^20 and beyond the range, chains of 6 primes per size, boundaries just below/at/above each prime", |s| {
        let nbs: Vec<usize> = (14..=62).collect();
        s.par(&nbs, |&nb| {
            for m in [1u64, 2, 3, 16, 48, 1000, 2048, 32768, 1 << 17, 1 << 20, 1 << 40, (1 << 61) + 5] {
                let mut ub = 1u64 << nb;
                for k in 0..6 {
                    // naive search with an independent test
                    let mut c = ub - 1;
                    c -= (c - 1) % m;
                    let mut want = None;
                    loop {
                        if c >> (nb - 1) != 1 {
                            break;
                        }
                        if is_prime64(c) {
                            want = Some(c);
                            break;
                        }
                        if c <= m {
                            break;
                        }
                        c -= m;
                    }
                    s.case(&format!("nb={nb} m={m} k={k}"), || {
                        let g = generate_prime(nb, m, ub);
                        if g != want {
                            return Err(format!("generate_prime({nb},{m},{ub}) = {g:?}, expected {want:?}"));
                        }
                        if let Some(p) = want {
                            if generate_prime(nb, m, p + 1) != want {
                                return Err(format!("generate_prime({nb},{m},{}) != {want:?}", p + 1));
                            }
                            s.outcome(p);
                        }
                        Ok(2)
                    });
                    match want {
                        Some(p) => ub = p,
                        None => break,
                    }
                }
            }
        });
    });
    let top = if t { 2000 } else { 500 };
    r.suite("inverse", &format!("every a < 3p+4 and modulus p in 2..={top}, and corner values of 62/64-bit moduli"), |s| {
        s.par_n(top - 1, |k| {
            let p = k as u64 + 2;
            for a in 0..=(if t { 2 * p } else { 3 * p + 4 }) {
                at([a as u128, p as u128, 0, 0, 0, 0]);
                chk_inv(s, a, p);
            }
            s.cases(3 * p);
            s.states(3 * p);
            s.transitions(3 * p);
        });
        for p in [u64::MAX, u64::MAX - 58, 1 << 63, (1 << 62) - 57, (1 << 61) - 1, 1 << 62, 6 * 35791394 * 9, 4611686018326724609] {
            let mut vs: Vec<u64> = (0..400).chain([p - 1, p - 2, p / 2, p / 2 + 1, p / 3, u64::MAX, u64::MAX - 1]).collect();
            vs.extend((0..63).map(|b| 1u64 << b));
            for a in vs {
                chk_inv(s, a, p);
                s.cases(1);
                s.states(1);
                s.transitions(1);
            }
        }
    });
}
fn chk_inv(s: &Suite, a: u64, p: u64) {
    let want = inv_naive(a % p, p);
    match guard(|| inverse(a, p)) {
        Ok(g) if g == want => {
            if p < 64 {
                s.outcome(h64(&g));
            }
        }
        Ok(g) => s.fail(&format!("a={a} p={p}"), &format!("inverse({a},{p}) = {g:?}, expected {want:?}")),
        Err(e) => s.fail(&format!("a={a} p={p}"), &format!("inverse({a},{p}) panicked: {e}")),
    }
}

// ------------------------------------------------------------------------------------------ A08
/// A caller-controlled random stream: a bit string consumed in order, whatever the request width.
pub struct BitRng {
    pub flip: Vec<usize>,
    pub base: u8,
    pub words: Option<Vec<u8>>,
    pub pos: usize, // bytes
}
impl BitRng {
    pub fn hot(f: &[usize], base: u8) -> Self {
        BitRng { flip: f.to_vec(), base, words: None, pos: 0 }
    }
    fn byte(&mut self) -> u8 {
        let mut b = match &self.words {
            Some(w) => w.get(self.pos).copied().unwrap_or(self.base),
            None => self.base,
        };
        for f in &self.flip {
            if f / 8 == self.pos {
                b ^= 1 << (f % 8);
            }
        }
        self.pos += 1;
        b
    }
}
impl TryRng for BitRng {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        let mut b = [0; 4];
        self.try_fill_bytes(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        let mut b = [0; 8];
        self.try_fill_bytes(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Infallible> {
        for x in d {
            *x = self.byte();
        }
        Ok(())
    }
}
impl TryCryptoRng for BitRng {}

pub fn a08(r: &Rep) {
    let t = r.thorough;
    r.assume("the random stream is modelled as a bit string consumed in order by next_u32/next_u64/fill_bytes (little endian)");
    let mut lens: Vec<usize> = (0..=20).chain([33, 64]).collect();
    if t {
        lens = (0..=40).chain([63, 64, 65, 128]).collect();
    }
    r.suite("bit-accounting", &format!("variances 1..=32 x lengths {lens:?}: every single-bit stream, both polarities: each coefficient owns exactly 2v plus-bits and 2v minus-bits, none shared"), |s| {
        let mut items = vec![];
        for v in 1..=32usize {
            for &n in &lens {
                items.push((v, n));
            }
        }
        s.par(&items, |&(v, n)| {
            s.case(&format!("v={v} n={n}"), || {
                let mut z = BitRng::hot(&[], 0);
                let base = sample_vec_cbd(n, v, &mut z)?;
                if base.len() != n || base.iter().any(|x| *x != 0) {
                    return Err(format!("all-zero stream gives {base:?}"));
                }
                let used = z.pos * 8;
                let mut o = BitRng::hot(&[], 0xff);
                let ones = sample_vec_cbd(n, v, &mut o)?;
                if ones.len() != n || ones.iter().any(|x| *x != 0) {
                    return Err(format!("all-one stream gives {ones:?}"));
                }
                if o.pos != z.pos {
                    return Err("the amount of randomness consumed depends on its value".into());
                }
                if used < 4 * v * n {
                    return Err(format!("only {used} bits consumed for {n} samples of {} bits", 4 * v));
                }
                let mut plus = vec![0usize; n];
                let mut minus = vec![0usize; n];
                for b in 0..used {
                    let a = sample_vec_cbd(n, v, &mut BitRng::hot(&[b], 0))?;
                    let c = sample_vec_cbd(n, v, &mut BitRng::hot(&[b], 0xff))?;
                    let nz: Vec<usize> = (0..n).filter(|i| a[*i] != 0).collect();
                    if nz.len() > 1 {
                        return Err(format!("stream bit {b} influences coefficients {nz:?}"));
                    }
                    for i in 0..n {
                        if c[i] != -a[i] || a[i].abs() > 1 {
                            return Err(format!("bit {b}: coefficient {i} is {} on the one-hot stream and {} on its complement", a[i], c[i]));
                        }
                    }
                    if let [i] = nz[..] {
                        if a[i] == 1 { plus[i] += 1 } else { minus[i] += 1 }
                    }
                }
                for i in 0..n {
                    if plus[i] != 2 * v || minus[i] != 2 * v {
                        return Err(format!("coefficient {i} sums {} plus-bits and {} minus-bits, expected {}", plus[i], minus[i], 2 * v));
                    }
                }
                s.outcome(h64(&(v, n, used)));
                Ok(2 * used as u64)
            });
        });
    });
    let long: Vec<(usize, usize)> = if t { vec![(1, 65536), (2, 32768), (1, 16384), (32, 4096), (17, 8192), (10, 1024)] } else { vec![(1, 16384), (32, 1024), (17, 2048), (10, 1024), (3, 4096)] };
    r.suite("long-vectors", &format!("(variance, length) in {long:?}: every single-bit stream: each coefficient owns exactly 2v plus-bits and 2v minus-bits, none shared; streams with every second, third, .. bit set give the sums of what the bits give"), |s| {
        for (v, n) in long {
            let mut z = BitRng::hot(&[], 0);
            let base = sample_vec_cbd(n, v, &mut z);
            let used = z.pos * 8;
            s.case(&format!("v={v} n={n} zero stream"), || {
                if base.clone()?.len() != n || base.clone()?.iter().any(|x| *x != 0) || used < 4 * v * n {
                    return Err(format!("all-zero stream: {used} bits used"));
                }
                Ok(1)
            });
            // (bit -> coefficient and sign)
            let owner: Vec<std::sync::OnceLock<(usize, i64)>> = (0..used).map(|_| Default::default()).collect();
            let chunks: Vec<usize> = (0..used).step_by(1024).collect();
            s.par(&chunks, |&c| {
                s.case(&format!("v={v} n={n} bits from {c}"), || {
                    for b in c..used.min(c + 1024) {
                        let a = sample_vec_cbd(n, v, &mut BitRng::hot(&[b], 0))?;
                        let mut nz = a.iter().enumerate().filter(|x| *x.1 != 0);
                        if let Some((i, x)) = nz.next() {
                            if x.abs() != 1 || nz.next().is_some() {
                                return Err(format!("stream bit {b} changes coefficient {i} by {x}, and perhaps others"));
                            }
                            let _ = owner[b].set((i, *x));
                        }
                    }
                    s.outcome(h64(&(v, n, c)));
                    Ok(used.min(c + 1024) as u64 - c as u64)
                });
            });
            s.case(&format!("v={v} n={n} ownership"), || {
                let mut k = vec![[0usize; 2]; n];
                for (i, x) in owner.iter().filter_map(|o| o.get()) {
                    k[*i][(*x < 0) as usize] += 1;
                }
                if let Some(i) = (0..n).find(|i| k[*i] != [2 * v; 2]) {
                    return Err(format!("coefficient {i} sums {} plus-bits and {} minus-bits, expected {}", k[i][0], k[i][1], 2 * v));
                }
                for step in 1..=9usize {
                    let flips: Vec<usize> = (0..used).step_by(step).collect();
                    let mut bytes = vec![0u8; used / 8];
                    let mut want = vec![0i64; n];
                    for b in flips {
                        bytes[b / 8] |= 1 << (b % 8);
                        if let Some((i, x)) = owner[b].get() {
                            want[*i] += x;
                        }
                    }
                    if sample_vec_cbd(n, v, &mut BitRng { flip: vec![], base: 0, pos: 0, words: Some(bytes) })? != want {
                        return Err(format!("the stream of every {step}-th bit does not give the sums of its bits"));
                    }
                }
                Ok(9)
            });
        }
    });
    r.suite("additivity", "variances 1..=32, 5 samples: every pair of stream bits adds up; all-plus and all-minus streams reach exactly +-2v; all 2^16 patterns of a sample for v<=4", |s| {
        let vs: Vec<usize> = (1..=32).collect();
        s.par(&vs, |&v| {
            s.case(&format!("v={v}"), || {
                let n = 5;
                let mut z = BitRng::hot(&[], 0);
                sample_vec_cbd(n, v, &mut z)?;
                let used = z.pos * 8;
                let one: Vec<Vec<i64>> = (0..used).map(|b| sample_vec_cbd(n, v, &mut BitRng::hot(&[b], 0)).unwrap()).collect();
                let mut k = used as u64;
                for a in 0..used {
                    for b in 0..a {
                        let g = sample_vec_cbd(n, v, &mut BitRng::hot(&[a, b], 0))?;
                        k += 1;
                        for i in 0..n {
                            if g[i] != one[a][i] + one[b][i] {
                                return Err(format!("stream bits {a},{b}: coefficient {i} is {} not {}", g[i], one[a][i] + one[b][i]));
                            }
                        }
                    }
                }
                for sign in [1i64, -1] {
                    let fl: Vec<usize> = (0..used).filter(|b| one[*b].iter().any(|x| *x == sign)).collect();
                    let g = sample_vec_cbd(n, v, &mut BitRng::hot(&fl, 0))?;
                    if g.iter().any(|x| *x != sign * 2 * v as i64) {
                        return Err(format!("extreme stream gives {g:?}, expected {}", sign * 2 * v as i64));
                    }
                }
                if v <= 4 {
                    // every value of the bits owned by the second sample
                    let own: Vec<usize> = (0..used).filter(|b| one[*b][1] != 0).collect();
                    for pat in 0..1usize << own.len() {
                        let fl: Vec<usize> = (0..own.len()).filter(|i| pat >> i & 1 == 1).map(|i| own[i]).collect();
                        let want: i64 = fl.iter().map(|b| one[*b][1]).sum();
                        let g = sample_vec_cbd(n, v, &mut BitRng::hot(&fl, 0))?;
                        if g[1] != want || g[0] != 0 || g[2] != 0 {
                            return Err(format!("stream bits {fl:?} give {g:?}, expected {want} in coefficient 1 only"));
                        }
                        k += 1;
                    }
                }
                s.outcome(h64(&one));
                Ok(k)
            });
        });
    });
    r.suite("rejection", "variance 0 and 33..=256 and extremes rejected by the sampler and by Poly::small, without consuming randomness being required", |s| {
        let ctx = Context::new_arc(&[97, 193], 8).unwrap();
        for v in (33..=256usize).chain([0, usize::MAX, usize::MAX / 4, 1 << 62, 1 << 32]) {
            for n in [0usize, 1, 8] {
                s.case(&format!("v={v} n={n}"), || {
                    if sample_vec_cbd(n, v, &mut BitRng::hot(&[], 0x5a)).is_ok() {
                        return Err("accepted".into());
                    }
                    if Poly::<PowerBasis>::small(&ctx, v, &mut BitRng::hot(&[], 0x5a)).is_ok() || Poly::<Ntt>::small(&ctx, v, &mut BitRng::hot(&[], 0x5a)).is_ok() || Poly::<NttShoup>::small(&ctx, v, &mut BitRng::hot(&[], 0x5a)).is_ok() {
                        return Err("Poly::small accepted".into());
                    }
                    Ok(4)
                });
            }
        }
        s.outcome(0);
    });
    r.suite("small-polynomials", "Poly::small in all three representations, contexts with moduli from 17 bits-of-5 to 62 bits, variances 1..=32, extreme and pseudo-random streams: same signed sample in every residue, equal to the sampler's", |s| {
        let p62 = ntt_primes(62, 64, 2);
        let ctxs: Vec<(Vec<u64>, usize)> = vec![(vec![17], 8), (vec![17, 97], 8), (vec![97, p62[0], 17], 8), (vec![p62[0], p62[1]], 32), (vec![97, 193, 257], 16)];
        let mut items = vec![];
        for c in &ctxs {
            for v in 1..=32usize {
                items.push((c.clone(), v));
            }
        }
        s.par(&items, |((m, d), v)| {
            let ctx = Context::new_arc(m, *d).unwrap();
            for k in 0..if t { 40u64 } else { 10 } {
                s.case(&format!("{m:?} d={d} v={v} k={k}"), || {
                    let mk = || {
                        let mut l = Lcg(k);
                        BitRng { flip: vec![], base: 0, pos: 0, words: Some((0..4096usize).map(|i| match k {
                            0 => if i % 2 == 0 { 0xff } else { 0 },
                            1 => if i / (*v).div_ceil(4) % 2 == 0 { 0xff } else { 0 },
                            2 => 0x0f,
                            _ => l.next() as u8,
                        }).collect()) }
                    };
                    let want = sample_vec_cbd(*d, *v, &mut mk())?;
                    let a = Poly::<PowerBasis>::small(&ctx, *v, &mut mk()).map_err(|e| format!("{e}"))?;
                    let b = Poly::<Ntt>::small(&ctx, *v, &mut mk()).map_err(|e| format!("{e}"))?;
                    let c = Poly::<NttShoup>::small(&ctx, *v, &mut mk()).map_err(|e| format!("{e}"))?;
                    let co = a.coefficients();
                    for (j, q) in m.iter().enumerate() {
                        for i in 0..*d {
                            let w = want[i].rem_euclid(*q as i64) as u64;
                            if co[[j, i]] != w {
                                return Err(format!("coefficient {i} modulo {q} is {}, sample is {}", co[[j, i]], want[i]));
                            }
                            if want[i].unsigned_abs() as usize > 2 * v {
                                return Err(format!("sample {} exceeds {}", want[i], 2 * v));
                            }
                        }
                    }
                    if b.into_power_basis() != a || c.into_power_basis() != a {
                        return Err("representations disagree".into());
                    }
                    s.outcome(h64(&want));
                    Ok(4)
                });
            }
        });
    });
}

// ------------------------------------------------------------------------------------------ A09
fn bits_of(a: &[u64], w: usize) -> Vec<bool> {
    let mut v = Vec::with_capacity(a.len() * w);
    for x in a {
        for i in 0..w {
            v.push(x >> i & 1 == 1);
        }
    }
    v
}
fn pack(bits: &[bool], w: usize) -> Vec<u64> {
    bits.chunks(w).map(|c| c.iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << i)).collect()
}
fn patterns(n: usize, w: usize, full: bool) -> Vec<Vec<u64>> {
    let m = u64::MAX >> (64 - w);
    let mut v = vec![vec![0; n], vec![m; n], (0..n).map(|i| if i % 2 == 0 { m } else { 0 }).collect(), vec![m & 0x5555_5555_5555_5555; n], vec![1 << (w - 1); n], vec![1; n]];
    let mut l = Lcg((n * 100 + w) as u64);
    for _ in 0..3 {
        v.push((0..n).map(|_| l.next() & m).collect());
    }
    if full {
        for i in 0..n {
            for b in 0..w {
                let mut a = vec![0; n];
                a[i] = 1 << b;
                v.push(a.clone());
                v.push(a.iter().map(|x| x ^ m).collect());
            }
        }
    }
    v
}

pub fn a09(r: &Rep) {
    let t = r.thorough;
    r.assume("values handed to the packers fit in the announced width (documented debug assertion)");
    let maxn = if t { 40 } else { 17 };
    r.suite("bytes", &format!("widths 1..=64 x lengths 0..={maxn}: every one-hot and one-cold vector, extremes, alternations; packed length, bit positions, padding, unpacking of the packed and of every raw byte prefix"), |s| {
        let mut items = vec![];
        for w in 1..=64usize {
            for n in 0..=maxn {
                items.push((w, n));
            }
        }
        s.par(&items, |&(w, n)| {
            let mut k = 0;
            for a in patterns(n, w, true) {
                let bits = bits_of(&a, w);
                let want: Vec<u8> = pack(&bits, 8).iter().map(|x| *x as u8).collect();
                let b = transcode_to_bytes(&a, w);
                if b != want {
                    s.fail(&format!("w={w} a={a:?}"), &format!("packed to {b:?}, expected {want:?}"));
                }
                let mut pb = bits.clone();
                pb.resize(want.len() * 8, false);
                let c = transcode_from_bytes(&want, w);
                if c != pack(&pb, w) || c.len() < n || c[..n] != a[..] || c[n..].iter().any(|x| *x != 0) {
                    s.fail(&format!("w={w} a={a:?}"), &format!("unpacked to {c:?}"));
                }
                k += 1;
            }
            s.outcome(h64(&(w, n)));
            s.cases(k);
            s.states(k);
            s.transitions(2 * k);
        });
    });
    r.suite("raw-bytes", "unpacking every byte length 0..=70 with every width for extreme and pseudo-random bytes; all single bytes and, for widths up to 16, all byte pairs", |s| {
        let ws: Vec<usize> = (1..=64).collect();
        s.par(&ws, |&w| {
            let mut k = 0;
            let mut one = |b: &[u8]| {
                let bits: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect();
                let c = transcode_from_bytes(b, w);
                if c != pack(&bits, w) {
                    s.fail(&format!("w={w} b={b:?}"), &format!("unpacked to {c:?}"));
                }
                k += 1;
            };
            for n in 0..=70usize {
                let mut l = Lcg(n as u64);
                one(&vec![0xff; n]);
                one(&vec![0; n]);
                one(&(0..n).map(|_| l.next() as u8).collect::<Vec<_>>());
                one(&(0..n).map(|i| if i + 1 == n { 0x80 } else { 0 }).collect::<Vec<_>>());
            }
            for x in 0..=255u8 {
                one(&[x]);
            }
            if w <= 16 {
                for x in 0..65536u32 {
                    one(&[x as u8, (x >> 8) as u8]);
                }
            }
            s.cases(k);
            s.states(k);
            s.transitions(k);
        });
    });
    let maxb = if t { 24 } else { 9 };
    r.suite("widths", &format!("every pair of widths 1..=64 x lengths 0..={maxb}: bit stream preserved, minimal length, zero padding, agreement with the byte packers"), |s| {
        s.par_n(64, |wi| {
            let wi = wi + 1;
            let mut k = 0;
            for wo in 1..=64usize {
                for n in 0..=maxb {
                    for a in patterns(n, wi, n <= 3) {
                        let bits = bits_of(&a, wi);
                        let want = pack(&bits, wo);
                        let b = transcode_bidirectional(&a, wi, wo);
                        if b != want {
                            s.fail(&format!("in={wi} out={wo} a={a:?}"), &format!("gave {b:?}, expected {want:?}"));
                        }
                        let c = transcode_bidirectional(&want, wo, wi);
                        if c.len() < n || c[..n] != a[..] || c[n..].iter().any(|x| *x != 0) {
                            s.fail(&format!("in={wi} out={wo} a={a:?}"), &format!("back gave {c:?}"));
                        }
                        k += 1;
                    }
                }
            }
            s.outcome(wi as u64);
            s.cases(k);
            s.states(k);
            s.transitions(2 * k);
        });
    });
    r.suite("invalid-widths", "width 0 and widths above 64 are refused in every position", |s| {
        for w in [0usize, 65, 66, 127, 128, 129, 256, usize::MAX] {
            s.case(&format!("w={w}"), || {
                for (k, f) in [guard(|| transcode_to_bytes(&[1], w)).is_ok(), guard(|| transcode_from_bytes(&[1], w)).is_ok(), guard(|| transcode_bidirectional(&[1], w, 8)).is_ok(), guard(|| transcode_bidirectional(&[1], 8, w)).is_ok()].iter().enumerate() {
                    if *f {
                        return Err(format!("function {k} accepted width {w}"));
                    }
                }
                Ok(4)
            });
        }
        s.outcome(0);
    });
    r.suite("residue-vectors", "Modulus::serialize_vec / deserialize_vec for moduli of every bit size 2..=62 (small, power of two, extremes, primes), lengths 0..=64 in steps of 8 and 4096 (documented sizes), extreme vectors", |s| {
        let mut ps = vec![2u64, 3, 4, 5, 7, 8];
        for b in 4..=62u32 {
            ps.extend([1 << (b - 1), (1 << (b - 1)) + 1, (1 << b) - 1]);
            ps.extend(ntt_primes(b, 2, 1));
        }
        s.par(&ps, |&p| {
            let m = Modulus::new(p).unwrap();
            let nb = 64 - (p - 1).leading_zeros() as usize;
            let mut k = 0;
            for n in (0..=64usize).step_by(8).chain([4096]) {
                let mut l = Lcg(p ^ n as u64);
                let mut vs: Vec<Vec<u64>> = vec![vec![p - 1; n], vec![0; n], (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 1 % p }).collect(), (0..n).map(|_| l.below(p)).collect()];
                if n <= 16 {
                    for i in 0..n {
                        let mut a = vec![0; n];
                        a[i] = p - 1;
                        vs.push(a);
                    }
                }
                for a in vs {
                    match guard(|| {
                        let b = m.serialize_vec(&a);
                        let c = m.deserialize_vec(&b);
                        (b.len(), m.serialization_length(n), c, b)
                    }) {
                        Err(e) => s.fail(&format!("p={p} n={n}"), &format!("panicked: {e}")),
                        Ok((lb, ls, c, b)) => {
                            if lb != ls || lb != (n * nb).div_ceil(8) {
                                s.fail(&format!("p={p} n={n}"), &format!("serialised to {lb} bytes, announced {ls}, {nb}-bit elements"));
                            }
                            if c != a {
                                s.fail(&format!("p={p} n={n}"), &format!("{a:?} came back as {c:?}"));
                            }
                            let want: Vec<u8> = pack(&bits_of(&a, nb), 8).iter().map(|x| *x as u8).collect();
                            if n <= 64 && b != want {
                                s.fail(&format!("p={p} n={n}"), &format!("{a:?} serialised to {b:?}, expected {want:?}"));
                            }
                        }
                    }
                    k += 1;
                }
            }
            s.outcome(p);
            s.cases(k);
            s.states(k);
            s.transitions(3 * k);
        });
    });
}
