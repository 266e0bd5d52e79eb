//! Naive reference arithmetic, written from the mathematical definitions only.
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};

pub fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn powmod(a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    let mut b = a % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
pub fn is_prime_naive(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    let mut i = 2u64;
    while i * i <= n {
        if n % i == 0 {
            return false;
        }
        i += 1;
    }
    true
}
/// Independent primality for 64-bit numbers: deterministic Miller-Rabin over the first twelve primes
/// (proved sufficient below 3.3e24).
pub fn is_prime64(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    let ps = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    for p in ps {
        if n % p == 0 {
            return n == p;
        }
    }
    let s = (n - 1).trailing_zeros();
    let d = (n - 1) >> s;
    'a: for a in ps {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'a;
            }
        }
        return false;
    }
    true
}
pub fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// Largest `count` primes below 2^bits congruent to 1 mod m.
pub fn ntt_primes(bits: u32, m: u64, count: usize) -> Vec<u64> {
    let mut v = vec![];
    let hi = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut x = (hi - 1) / m * m + 1;
    while v.len() < count && x >> (bits - 1) != 0 {
        if is_prime64(x) {
            v.push(x);
        }
        if x < m {
            break;
        }
        x -= m;
    }
    v
}
pub fn brv(i: usize, n: usize) -> usize {
    let l = n.trailing_zeros();
    let mut r = 0;
    for b in 0..l {
        if i >> b & 1 == 1 {
            r |= 1 << (l - 1 - b);
        }
    }
    r
}
/// Negacyclic product modulo p: by the definition for small degrees and few terms, else through the harness's own
/// transform (`fast_negmul`, compared with the definition by `check_fast` before any check runs).
pub fn negmul(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let nz = |v: &[u64]| v.iter().filter(|x| **x != 0).count();
    if n >= 1024 && n.is_power_of_two() && nz(a).saturating_mul(nz(b)) > n * 64 {
        return fast_negmul(a, b, p);
    }
    slow_negmul(a, b, p)
}
pub fn slow_negmul(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let mut o = vec![0u64; n];
    let bs: Vec<(usize, u64)> = b.iter().copied().enumerate().filter(|x| x.1 != 0).collect();
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for &(j, y) in &bs {
            let t = mulmod(a[i], y, p);
            let k = i + j;
            if k < n {
                o[k] = ((o[k] as u128 + t as u128) % p as u128) as u64;
            } else {
                o[k - n] = ((o[k - n] as u128 + (p - t) as u128) % p as u128) as u64;
            }
        }
    }
    o
}
type Table = std::sync::Arc<Vec<u64>>;
/// Powers 0..2n of a primitive 2n-th root of unity modulo the prime p = 1 mod 2n.
fn roots(p: u64, n: usize) -> Table {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static T: OnceLock<Mutex<HashMap<(u64, usize), Table>>> = OnceLock::new();
    let m = T.get_or_init(Default::default);
    if let Some(t) = m.lock().unwrap().get(&(p, n)) {
        return t.clone();
    }
    let psi = (2..p).map(|x| powmod(x, (p - 1) / (2 * n as u64), p)).find(|y| powmod(*y, n as u64, p) == p - 1).unwrap();
    let mut v = vec![1u64];
    for _ in 1..2 * n {
        v.push(mulmod(*v.last().unwrap(), psi, p));
    }
    let v = Table::new(v);
    m.lock().unwrap().insert((p, n), v.clone());
    v
}
/// Cyclic transform with root w = psi^(2 step), decimation in time.
fn cyclic(v: &[u64], t: &[u64], p: u64, inverse: bool) -> Vec<u64> {
    let n = v.len();
    let mut o: Vec<u64> = (0..n).map(|i| v[brv(i, n)]).collect();
    let mut h = 1;
    while h < n {
        let step = n / h; // exponent of psi for the root of order 2h is 2n / 2h
        for s in (0..n).step_by(2 * h) {
            for j in 0..h {
                let e = j * step;
                let w = if inverse && e > 0 { t[2 * n - e] } else { t[e] };
                let (x, y) = (o[s + j], mulmod(o[s + j + h], w, p));
                o[s + j] = ((x as u128 + y as u128) % p as u128) as u64;
                o[s + j + h] = ((x as u128 + (p - y) as u128) % p as u128) as u64;
            }
        }
        h *= 2;
    }
    o
}
fn ntt_negmul(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let t = roots(p, n);
    let tw = |v: &[u64]| -> Vec<u64> { cyclic(&v.iter().enumerate().map(|(j, x)| mulmod(*x % p, t[j], p)).collect::<Vec<_>>(), &t, p, false) };
    let c: Vec<u64> = tw(a).iter().zip(tw(b)).map(|(x, y)| mulmod(*x, y, p)).collect();
    let ni = powmod(n as u64 % p, p - 2, p);
    cyclic(&c, &t, p, true).iter().enumerate().map(|(j, x)| mulmod(mulmod(*x, ni, p), if j == 0 { 1 } else { t[2 * n - j] }, p)).collect()
}
fn fast_negmul(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    if p % (2 * n as u64) == 1 && is_prime64(p) {
        return ntt_negmul(a, b, p);
    }
    // over the integers: |c| < n p^2 < 2^(17 + 128), three primes of 62 bits hold it
    let q = ntt_primes(62, 2 * n as u64, 3);
    let r: Vec<Vec<u64>> = q.iter().map(|q| ntt_negmul(a, b, *q)).collect();
    let pq = prod(&q);
    let pb = BigUint::from(p);
    (0..n).map(|j| modp(&centre(&crt(&[r[0][j], r[1][j], r[2][j]], &q), &pq), &pb).to_u64().unwrap()).collect()
}
/// The transform-based product agrees with the definition: all pairs of a spanning set of monomials and dense vectors.
pub fn check_fast() {
    for n in [8usize, 64] {
        for p in [ntt_primes(62, 2 * n as u64, 1)[0], ntt_primes(20, 2 * n as u64, 1)[0], 97, 2, (1 << 62) - 1, u64::MAX] {
            let mut v: Vec<Vec<u64>> = (0..n).step_by(n / 8).chain([n - 1]).map(|i| (0..n).map(|j| if i == j { p - 1 } else { 0 }).collect()).collect();
            v.push(vec![p - 1; n]);
            v.push((0..n as u64).map(|j| j.wrapping_mul(0x9E37_79B9_7F4A_7C15) % p).collect());
            for a in &v {
                for b in &v {
                    assert_eq!(fast_negmul(a, b, p), slow_negmul(a, b, p), "harness product, n={n} p={p}");
                }
            }
        }
    }
}
pub fn prod(m: &[u64]) -> BigUint {
    m.iter().fold(BigUint::one(), |a, b| a * *b)
}
/// Chinese remaindering by the definition.
pub fn crt(res: &[u64], m: &[u64]) -> BigUint {
    let q = prod(m);
    let mut r = BigUint::zero();
    for (x, mi) in res.iter().zip(m) {
        let qs = &q / *mi;
        let qi = (&qs % *mi).to_u64().unwrap();
        let inv = inv_naive(qi, *mi).unwrap();
        r += qs * inv * *x;
    }
    r % q
}
pub fn inv_naive(a: u64, p: u64) -> Option<u64> {
    // extended Euclid on i128
    let (mut r0, mut r1) = (p as i128, (a % p) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 {
        return if p == 1 { Some(0) } else { None };
    }
    Some(((t0 % p as i128 + p as i128) % p as i128) as u64)
}
pub fn bi(x: &BigUint) -> BigInt {
    BigInt::from(x.clone())
}
/// floor(a / b) for b > 0
pub fn fdiv(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    if (a % b).is_negative() { q - 1 } else { q }
}
/// round half up
pub fn rdiv(a: &BigInt, b: &BigInt) -> BigInt {
    fdiv(&(a * 2 + b), &(b * 2))
}
pub fn modp(a: &BigInt, q: &BigUint) -> BigUint {
    let qq = bi(q);
    let r = a % &qq;
    (if r.is_negative() { r + qq } else { r }).to_biguint().unwrap()
}
/// Representative in (-q/2, q/2].
pub fn centre(a: &BigUint, q: &BigUint) -> BigInt {
    if a * 2u32 > *q { bi(a) - bi(q) } else { bi(a) }
}
pub fn residues(a: &BigInt, m: &[u64]) -> Vec<u64> {
    m.iter().map(|q| modp(a, &BigUint::from(*q)).to_u64().unwrap()).collect()
}
/// Acceptable results of scaling x (mod q) by num/den: exactly the rounded value, where the choice of
/// representative (values within 2^-50 of q/2) or of rounding direction (non-exact values within 2^-50 of a
/// tie) is left open because the implementation works with 127 fractional bits.
pub fn scale_ok(x: &BigUint, q: &BigUint, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let mut ys = vec![centre(x, q)];
    // |x - q/2| <= q * 2^-50
    let d: BigInt = bi(x) * 2 - bi(q);
    if (d.abs() << 50usize) <= bi(q) * 2 {
        ys = vec![bi(x), bi(x) - bi(q)];
    }
    let mut out = vec![];
    for y in ys {
        let a = y * bi(num);
        let b = bi(den);
        let r = rdiv(&a, &b);
        // distance of a/b to the nearest half integer: |2a/b mod 2 - 1| / 2
        let two = BigInt::from(2);
        let f: BigInt = &a * &two - fdiv(&(&a * &two), &(&b * &two)) * &b * &two; // 2a mod 2b in [0,2b)
        let dist = (&f - &b).abs();
        out.push(r.clone());
        if !dist.is_zero() && (dist << 50usize) <= b {
            let alt = if f > b { &r - 1 } else { &r + 1 };
            out.push(alt);
        }
    }
    out
}
