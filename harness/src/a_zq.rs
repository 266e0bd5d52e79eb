//! A01: modular arithmetic equals integer arithmetic modulo p.
use crate::core::*;
use fhe_math::zq::{Modulus, primes};
use num_bigint::BigUint;

/// Moduli of every bit size 2..=62 including powers of two, extremes, NTT primes and the
/// thresholds where the optimised reduction becomes admissible.
pub fn big_moduli(thorough: bool) -> Vec<u64> {
    let mut v = vec![];
    let mut l = Lcg(0xA01);
    for b in 7..=62usize {
        let lo = 1u64 << (b - 1);
        let hi = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
        v.extend([lo, lo + 1, hi, hi - 1]);
        // threshold of the documented inequality for this bit size
        let (mut a, mut z) = (lo, hi);
        if opt_formula(z) {
            while a < z {
                let m = a + (z - a) / 2;
                if opt_formula(m) { z = m } else { a = m + 1 }
            }
            v.extend([a.saturating_sub(1).max(lo), a, (a + 1).min(hi)]);
        }
        v.push(lo + l.below(lo));
        if thorough {
            for _ in 0..12 {
                v.push(lo + l.below(lo));
            }
        }
    }
    v.extend([4611686018326724609, 4611686018309947393, 1153, 1152921504606584833, 288230376150876161, 0x3fffffff000001]);
    v.sort_unstable();
    v.dedup();
    v
}
pub fn opt_formula(p: u64) -> bool {
    let s0 = p.leading_zeros();
    if s0 < 1 {
        return false;
    }
    let x = BigUint::from(1u8) << (3 * s0);
    let left = (&x + 1u8) << 64;
    let right = &x * ((BigUint::from(1u8) << s0) + 1u8) * p;
    left < right
}

fn alphabet(p: u64, thorough: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut put = |x: i128| {
        if x >= 0 && (x as u128) < p as u128 {
            v.push(x as u64)
        }
    };
    for d in -3..=3i128 {
        for base in [0i128, p as i128, (p / 2) as i128, (p / 3) as i128, (p as f64).sqrt() as i128] {
            put(base + d);
        }
    }
    for k in 0..62 {
        for d in -1..=1i128 {
            if thorough || d == 0 || k % 8 == 0 || k == 31 || k == 32 || k == 61 {
                put((1i128 << k) + d);
                put(p as i128 - (1i128 << k) + d);
            }
        }
    }
    let mut l = Lcg(p);
    for _ in 0..(if thorough { 24 } else { 8 }) {
        put(l.below(p) as i128);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn wide64(p: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MIN as u64, i64::MIN as u64 + 1, i64::MAX as u64 - 1];
    let kmax = u64::MAX / p;
    for k in [1u64, 2, 3, 4, 5, 7, 8, kmax / 2, kmax / 2 + 1, kmax - kmax.min(1), kmax] {
        let m = (k as u128) * p as u128;
        for d in -2..=2i128 {
            let x = m as i128 + d;
            if x >= 0 && x <= u64::MAX as i128 {
                v.push(x as u64)
            }
        }
    }
    for k in 0..64 {
        v.push(1u64 << k);
        v.push((1u64 << k).wrapping_sub(1));
        v.push(u64::MAX << k);
    }
    let mut l = Lcg(p ^ 0x77);
    for _ in 0..16 {
        v.push(l.next())
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn wide128(p: u64) -> Vec<u128> {
    let mut v: Vec<u128> = wide64(p).into_iter().map(|x| x as u128).collect();
    let pp = p as u128;
    let kmax = u128::MAX / pp;
    for k in [pp - 1, pp, pp + 1, 2 * pp, 1 << 64, (1 << 64) - 1, (1 << 64) + 1, kmax / 2, kmax - 1, kmax, kmax / 3, (1u128 << 66) / 5] {
        if k <= kmax {
            for d in 0..3u128 {
                v.push((k * pp).wrapping_add(d));
                v.push((k * pp).wrapping_sub(d));
            }
        }
    }
    for k in 0..128 {
        v.push(1u128 << k);
        v.push((1u128 << k).wrapping_sub(1));
        v.push(u128::MAX << k);
    }
    let mut l = Lcg(p ^ 0x99);
    for _ in 0..32 {
        v.push((l.next() as u128) << 64 | l.next() as u128)
    }
    v.sort_unstable();
    v.dedup();
    v
}

macro_rules! eq {
    ($s:expr, $op:expr, $p:expr, $got:expr, $want:expr, $($a:expr),*) => {{
        let (g, w) = ($got, $want);
        if g != w {
            let args = [$(format!("{:?}", $a)),*].join(",");
            $s.fail(&format!("{} p={} args={}", $op, $p, args), &format!("{}({}) mod {} returned {:?}, expected {:?}", $op, args, $p, g, w));
        }
    }};
}

fn pairs(s: &Suite, p: u64, vals: &[u64], m: &Modulus, opt: bool) {
    let pp = p as u128;
    let mut tr = 0u64;
    for &a in vals {
        let na = m.neg(a);
        eq!(s, "neg", p, na, ((pp - a as u128) % pp) as u64, a);
        let ash = m.shoup(a);
        eq!(s, "shoup", p, ash as u128, ((a as u128) << 64) / pp, a);
        let c = m.center(a);
        // documented interval [-p/2, p/2) with p/2 rounded down, as the existing tests fix it
        let ok = c as i128 == if a >= p / 2 { a as i128 - p as i128 } else { a as i128 };
        if !ok {
            s.fail(&format!("center p={p} a={a}"), &format!("center({a}) mod {p} = {c}"));
        }
        tr += 3;
        for &b in vals {
            at([1, pp, a as u128, b as u128, 0, 0]);
            let (a1, b1) = (a as u128, b as u128);
            eq!(s, "add", p, m.add(a, b), ((a1 + b1) % pp) as u64, a, b);
            eq!(s, "add_vt", p, unsafe { m.add_vt(a, b) }, ((a1 + b1) % pp) as u64, a, b);
            eq!(s, "sub", p, m.sub(a, b), ((a1 + pp - b1) % pp) as u64, a, b);
            let prod = ((a1 * b1) % pp) as u64;
            eq!(s, "mul", p, m.mul(a, b), prod, a, b);
            if opt {
                eq!(s, "mul_opt", p, m.mul_opt(a, b), prod, a, b);
                eq!(s, "reduce_opt_u128", p, m.reduce_opt_u128(a1 * b1), prod, a, b);
                let l = m.lazy_reduce_opt_u128(a1 * b1);
                if l as u128 >= 2 * pp || l % p != prod {
                    s.fail(&format!("lazy_reduce_opt_u128 p={p} a={a} b={b}"), &format!("{l}"));
                }
            }
            eq!(s, "mul_shoup", p, m.mul_shoup(b, a, ash), prod, b, a);
            let l = m.lazy_mul_shoup(b, a, ash);
            if l as u128 >= 2 * pp || l % p != prod {
                s.fail(&format!("lazy_mul_shoup p={p} a={b} b={a}"), &format!("{l}"));
            }
            tr += 7;
        }
        if s.stop() {
            return;
        }
    }
    s.transitions(tr);
    s.states((vals.len() * vals.len()) as u64);
    s.cases((vals.len() * vals.len()) as u64);
}

fn wide(s: &Suite, p: u64, m: &Modulus, opt: bool, w64: &[u64], w128: &[u128], b_vals: &[u64]) {
    let pp = p as u128;
    let mut tr = 0;
    for &a in w64 {
        at([2, pp, a as u128, 0, 0, 0]);
        eq!(s, "reduce", p, m.reduce(a), a % p, a);
        eq!(s, "reduce_vt", p, unsafe { m.reduce_vt(a) }, a % p, a);
        let l = m.lazy_reduce(a);
        if l as u128 >= 2 * pp || l % p != a % p {
            s.fail(&format!("lazy_reduce p={p} a={a}"), &format!("{l}"));
        }
        if opt {
            eq!(s, "reduce_opt", p, m.reduce_opt(a), a % p, a);
            eq!(s, "reduce_opt_vt", p, unsafe { m.reduce_opt_vt(a) }, a % p, a);
        }
        let ai = a as i64;
        let want = (ai as i128).rem_euclid(p as i128) as u64;
        eq!(s, "reduce_i64", p, m.reduce_vec_i64(&[ai])[0], want, ai);
        eq!(s, "reduce_i64_vt", p, unsafe { m.reduce_vec_i64_vt(&[ai]) }[0], want, ai);
        tr += 7;
        for &b in b_vals {
            // Shoup products accept an unreduced multiplicand
            let want = (a as u128 * b as u128 % pp) as u64;
            eq!(s, "mul_shoup(wide)", p, m.mul_shoup(a, b, m.shoup(b)), want, a, b);
            let l = m.lazy_mul_shoup(a, b, m.shoup(b));
            if l as u128 >= 2 * pp || l % p != want {
                s.fail(&format!("lazy_mul_shoup(wide) p={p} a={a} b={b}"), &format!("{l}"));
            }
            tr += 2;
        }
    }
    for &a in w128 {
        at([3, pp, a, 0, 0, 0]);
        let want = (a % pp) as u64;
        eq!(s, "reduce_u128", p, m.reduce_u128(a), want, a);
        eq!(s, "reduce_u128_vt", p, unsafe { m.reduce_u128_vt(a) }, want, a);
        let l = m.lazy_reduce_u128(a);
        if l as u128 >= 2 * pp || l % p != want {
            s.fail(&format!("lazy_reduce_u128 p={p} a={a}"), &format!("{l}"));
        }
        if opt && a < pp * pp {
            eq!(s, "reduce_opt_u128(wide)", p, m.reduce_opt_u128(a), want, a);
        }
        tr += 4;
    }
    s.transitions(tr);
    s.states((w64.len() + w128.len()) as u64);
    s.cases((w64.len() + w128.len()) as u64);
}

fn vectors(s: &Suite, p: u64, m: &Modulus, opt: bool, vals: &[u64], w64: &[u64], lens: &[usize]) {
    // all ordered pairs laid out consecutively; every length starts at a different offset so that
    // each position of the unrolled loops sees many different pairs
    let n = vals.len();
    let pair = |k: usize| (vals[k % n], vals[(k / n + k) % n]);
    let pp = p as u128;
    let mut off = 0;
    let mut tr = 0u64;
    for &len in lens {
        for rep in 0..2usize {
            let a: Vec<u64> = (0..len).map(|i| pair(off + i * (1 + rep * 6)).0).collect();
            let b: Vec<u64> = (0..len).map(|i| pair(off + i * (1 + rep * 6)).1).collect();
            off = off.wrapping_add(len * 3 + 7);
            let bs = m.shoup_vec(&b);
            at([4, pp, len as u128, off as u128, 0, 0]);
            let mut chk = |name: &str, got: Vec<u64>, f: &dyn Fn(usize) -> u64| {
                tr += 1;
                if got.len() != len {
                    s.fail(&format!("{name} p={p} len={len}"), &format!("length {}", got.len()));
                    return;
                }
                for i in 0..len {
                    let w = f(i);
                    if got[i] != w {
                        s.fail(&format!("{name} p={p} len={len} i={i} a={} b={}", a[i], b[i]), &format!("{name} over length {len}: entry {i} is {} expected {w}", got[i]));
                        return;
                    }
                }
            };
            let run = |f: &dyn Fn(&mut [u64])| {
                let mut x = a.clone();
                f(&mut x);
                x
            };
            let add = |i: usize| ((a[i] as u128 + b[i] as u128) % pp) as u64;
            let sub = |i: usize| ((a[i] as u128 + pp - b[i] as u128) % pp) as u64;
            let mul = |i: usize| ((a[i] as u128 * b[i] as u128) % pp) as u64;
            let neg = |i: usize| ((pp - a[i] as u128) % pp) as u64;
            chk("add_vec", run(&|x| m.add_vec(x, &b)), &add);
            chk("add_vec_vt", run(&|x| unsafe { m.add_vec_vt(x, &b) }), &add);
            chk("sub_vec", run(&|x| m.sub_vec(x, &b)), &sub);
            chk("sub_vec_vt", run(&|x| unsafe { m.sub_vec_vt(x, &b) }), &sub);
            chk("mul_vec", run(&|x| m.mul_vec(x, &b)), &mul);
            chk("mul_vec_vt", run(&|x| unsafe { m.mul_vec_vt(x, &b) }), &mul);
            chk("neg_vec", run(&|x| m.neg_vec(x)), &neg);
            chk("neg_vec_vt", run(&|x| unsafe { m.neg_vec_vt(x) }), &neg);
            chk("shoup_vec", bs.clone(), &|i| (((b[i] as u128) << 64) / pp) as u64);
            chk("mul_shoup_vec", run(&|x| m.mul_shoup_vec(x, &b, &bs)), &mul);
            chk("mul_shoup_vec_vt", run(&|x| unsafe { m.mul_shoup_vec_vt(x, &b, &bs) }), &mul);
            let sc = if len > 0 { b[0] } else { vals[0] };
            let smul = |i: usize| ((a[i] as u128 * sc as u128) % pp) as u64;
            chk("scalar_mul_vec", run(&|x| m.scalar_mul_vec(x, sc)), &smul);
            chk("scalar_mul_vec_vt", run(&|x| unsafe { m.scalar_mul_vec_vt(x, sc) }), &smul);
            chk("center_vec", m.center_vec(&a).iter().map(|c| (*c as i128).rem_euclid(p as i128) as u64).collect(), &|i| a[i]);
            // unreduced inputs
            let w: Vec<u64> = (0..len).map(|i| w64[(off + i * 5) % w64.len()]).collect();
            let red = |i: usize| w[i] % p;
            let runw = |f: &dyn Fn(&mut [u64])| {
                let mut x = w.clone();
                f(&mut x);
                x
            };
            chk("reduce_vec", runw(&|x| m.reduce_vec(x)), &red);
            chk("reduce_vec_vt", runw(&|x| unsafe { m.reduce_vec_vt(x) }), &red);
            chk("reduce_vec_new", m.reduce_vec_new(&w), &red);
            chk("reduce_vec_new_vt", unsafe { m.reduce_vec_new_vt(&w) }, &red);
            let lz = runw(&|x| m.lazy_reduce_vec(x));
            if lz.iter().any(|x| *x as u128 >= 2 * pp) {
                s.fail(&format!("lazy_reduce_vec range p={p} len={len}"), &format!("{lz:?}"));
            }
            chk("lazy_reduce_vec", lz.iter().map(|x| x % p).collect(), &red);
            let wi: Vec<i64> = w.iter().map(|x| *x as i64).collect();
            let redi = |i: usize| (wi[i] as i128).rem_euclid(p as i128) as u64;
            chk("reduce_vec_i64", m.reduce_vec_i64(&wi), &redi);
            chk("reduce_vec_i64_vt", unsafe { m.reduce_vec_i64_vt(&wi) }, &redi);
            let _ = opt;
        }
    }
    s.transitions(tr);
    s.states(lens.len() as u64 * 2);
    s.cases(lens.len() as u64 * 2);
}

fn naive_pow(a: u64, mut n: u64, p: u64) -> u64 {
    let (mut r, mut b) = (1u128 % p as u128, a as u128);
    while n > 0 {
        if n & 1 == 1 {
            r = r * b % p as u128
        }
        b = b * b % p as u128;
        n >>= 1;
    }
    r as u64
}
pub fn naive_is_prime_small(p: u64) -> bool {
    if p < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= p {
        if p % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}
/// Deterministic Miller-Rabin, exact for all 64-bit integers with the first twelve prime bases.
pub fn mr_is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for q in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % q == 0 {
            return n == q;
        }
    }
    let (mut d, mut r) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        r += 1
    }
    'b: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = {
            let (mut res, mut b, mut e) = (1u128, a as u128, d);
            while e > 0 {
                if e & 1 == 1 {
                    res = res * b % n as u128
                }
                b = b * b % n as u128;
                e >>= 1
            }
            res
        };
        if x == 1 || x == n as u128 - 1 {
            continue;
        }
        for _ in 0..r - 1 {
            x = x * x % n as u128;
            if x == n as u128 - 1 {
                continue 'b;
            }
        }
        return false;
    }
    true
}

pub fn a01(r: &Rep) {
    r.assume("operands outside the enumerated alphabets of moduli above the exhaustive bound are not covered");
    r.assume("compiled code under test: stable rustc, overflow checks and debug assertions on, default target features");
    let t = r.thorough;
    r.suite("construction", "Modulus::new on 0..=300, every power of two +-2, u64::MAX; supports_opt against its documented inequality", |s| {
        let mut v: Vec<u64> = (0..=300).collect();
        for k in 0..64 {
            for d in -2..=2i128 {
                let x = (1i128 << k) + d;
                if (0..=u64::MAX as i128).contains(&x) {
                    v.push(x as u64)
                }
            }
        }
        v.push(u64::MAX);
        for x in v {
            s.case(&format!("new {x}"), || {
                let want = x >= 2 && x < (1 << 62);
                match Modulus::new(x) {
                    Ok(m) => {
                        if !want {
                            return Err(format!("Modulus::new({x}) accepted"));
                        }
                        if *m != x || m != Modulus::new(x).unwrap() {
                            return Err("does not report its value".into());
                        }
                    }
                    Err(_) if want => return Err(format!("Modulus::new({x}) rejected")),
                    Err(_) => {}
                }
                if x >= 2 && primes::supports_opt(x) != opt_formula(x) {
                    return Err(format!("supports_opt({x})"));
                }
                Ok(2)
            });
        }
    });
    let lim = if t { 1100u64 } else { 300 };
    let small: Vec<u64> = (2..=lim).collect();
    r.suite("small-exhaustive", &format!("every modulus 2..={lim}, every operand pair, every scalar op; all wide reductions of the 64/128-bit alphabets"), |s| {
        s.par(&small, |&p| {
            let m = Modulus::new(p).unwrap();
            let vals: Vec<u64> = (0..p).collect();
            pairs(s, p, &vals, &m, false);
            wide(s, p, &m, false, &wide64(p), &wide128(p), &vals[..vals.len().min(12)]);
            s.outcome(p);
        });
        s.sample(|| "p=7: all 49 pairs through add/sub/mul/mul_shoup/lazy, compared with u128 arithmetic".into());
    });
    let plim = if t { 400u64 } else { 128 };
    r.suite("pow-inv-small", &format!("every modulus 2..={plim}, every base and every exponent below p; inverse of every residue"), |s| {
        let v: Vec<u64> = (2..=plim).collect();
        s.par(&v, |&p| {
            let m = Modulus::new(p).unwrap();
            for a in 0..p {
                for n in 0..p {
                    at([5, p as u128, a as u128, n as u128, 0, 0]);
                    eq!(s, "pow", p, m.pow(a, n), naive_pow(a, n, p), a, n);
                }
                let inv = m.inv(a);
                let want = if naive_is_prime_small(p) && a != 0 { (1..p).find(|b| a * b % p == 1) } else { None };
                eq!(s, "inv", p, inv, want, a);
            }
            s.states(p * p);
            s.cases(p * p);
            s.transitions(p * (p + 1));
        });
    });
    let big = big_moduli(t);
    r.suite("big-pairs", &format!("{} moduli of every bit size 7..=62 (extremes, powers of two, admissibility thresholds, NTT primes): all pairs of the corner alphabet", big.len()), |s| {
        s.par(&big, |&p| {
            let m = Modulus::new(p).unwrap();
            let opt = primes::supports_opt(p);
            let vals = alphabet(p, t);
            pairs(s, p, &vals, &m, opt);
            let few: Vec<u64> = vals.iter().copied().step_by(vals.len() / 10 + 1).chain([p - 1]).collect();
            wide(s, p, &m, opt, &wide64(p), &wide128(p), &few);
            s.outcome(p);
        });
        s.sample(|| format!("p={} opt={} alphabet {:?}...", big[5], primes::supports_opt(big[5]), &alphabet(big[5], false)[..6]));
    });
    r.suite("big-pow-inv", "corner moduli: bases x exponents corner alphabets", |s| {
        s.par(&big, |&p| {
            let m = Modulus::new(p).unwrap();
            let vals: Vec<u64> = alphabet(p, false).into_iter().step_by(7).chain([p - 1, 1]).collect();
            let ex: Vec<u64> = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, p / 2, p - 2, p - 1, (1 << 20) % p, 1 << (62 - p.leading_zeros().min(62)).min(61)].into_iter().filter(|e| *e < p).collect();
            let prime = mr_is_prime(p);
            for &a in &vals {
                for &n in &ex {
                    at([6, p as u128, a as u128, n as u128, 0, 0]);
                    eq!(s, "pow", p, m.pow(a, n), naive_pow(a, n, p), a, n);
                }
                match m.inv(a) {
                    None => {
                        if prime && a != 0 {
                            s.fail(&format!("inv p={p} a={a}"), "no inverse reported");
                        }
                    }
                    Some(x) => {
                        if !prime || a == 0 || (x as u128 * a as u128) % p as u128 != 1 || x >= p {
                            s.fail(&format!("inv p={p} a={a}"), &format!("returned {x}"));
                        }
                    }
                }
            }
            s.states((vals.len() * ex.len()) as u64);
            s.cases((vals.len() * ex.len()) as u64);
            s.transitions((vals.len() * (1 + ex.len())) as u64);
        });
    });
    let lens: Vec<usize> = (0..=70).chain([96, 127, 128, 129, 255, 256, 257]).collect();
    let mut vm: Vec<u64> = (2..=40).collect();
    vm.extend(big.iter().copied().step_by(if t { 1 } else { 2 }));
    r.suite("vectors", "every vectorised entry point for every length 0..=70 and around 96/128/256, corner pairs at shifting offsets, small and corner moduli", |s| {
        s.par(&vm, |&p| {
            let m = Modulus::new(p).unwrap();
            let vals = if p <= 40 { (0..p).collect() } else { alphabet(p, false) };
            vectors(s, p, &m, primes::supports_opt(p), &vals, &wide64(p), &lens);
            s.outcome(p);
        });
    });
    r.suite("random-vec", "random_vec for every length 0..=40 over small and corner moduli stays in range and is a function of the caller's stream", |s| {
        s.par(&vm, |&p| {
            let m = Modulus::new(p).unwrap();
            for len in 0..=40 {
                let a = m.random_vec(len, &mut rng(p));
                let b = m.random_vec(len, &mut rng(p));
                if a.len() != len || a != b || a.iter().any(|x| *x >= p) {
                    s.fail(&format!("random_vec p={p} len={len}"), &format!("{a:?}"));
                }
            }
            s.cases(41);
            s.states(41);
            s.transitions(82);
        });
    });
}
