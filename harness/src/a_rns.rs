//! A03: residue number systems.
use crate::core::*;
use crate::model::*;
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use ndarray::{Array1, ArrayView1};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use std::sync::Arc;

fn lists(alpha: &[u64], maxlen: usize) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for k in 0..=maxlen {
        for t in all_tuples(alpha.len(), k) {
            out.push(t.iter().map(|i| alpha[*i]).collect());
        }
    }
    out
}
fn coprime(l: &[u64]) -> bool {
    (0..l.len()).all(|i| (0..i).all(|j| gcd(l[i], l[j]) == 1))
}

pub fn big_lists() -> Vec<Vec<u64>> {
    let p62 = ntt_primes(62, 16, 6);
    let p50 = ntt_primes(50, 16, 3);
    let p30 = ntt_primes(30, 16, 3);
    vec![
        vec![p62[0]],
        vec![p62[0], p62[1]],
        vec![p62[0], p62[1], p62[2], p62[3], p62[4], p62[5]],
        vec![17, p62[0]],
        vec![p62[1], 17, p30[0]],
        vec![p30[0], p30[1], p30[2]],
        vec![p50[0], p30[0], p62[2], 97],
        vec![4, 4611686018326724609, 1153],
        vec![1 << 61, p62[0]],
        vec![(1 << 62) - 1, 1 << 40, p50[1]],
        vec![2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53],
    ]
}

/// Corner integers below q: extremes, powers of two, multiples of each modulus, neighbourhood of q/2.
pub fn corners(q: &BigUint, moduli: &[u64], n: usize, seed: u64) -> Vec<BigUint> {
    let one = BigUint::one();
    let mut v: Vec<BigUint> = vec![BigUint::zero(), one.clone(), q - 1u32];
    let h = q >> 1usize;
    for d in 0..4u32 {
        v.push((&h + d) % q);
        if h >= BigUint::from(d) {
            v.push((&h - d) % q);
        }
    }
    // geometric approach of q/2, from both sides
    for b in 2..60usize {
        v.push((&h + (q >> b)) % q);
        v.push(&h - (q >> b));
    }
    for d in [2u32, 3, 4, 7] {
        v.push(q / d);
        v.push((q / d + 1u32) % q);
        v.push(q - q / d);
    }
    for m in moduli {
        v.push(q - q / *m);
        v.push((q / *m * (*m / 2)) % q);
        v.push((q / *m * (m - 1)) % q);
        v.push(BigUint::from(m - 1) % q);
    }
    for b in (0..q.bits()).step_by(7) {
        v.push((&one << b) % q);
        v.push((q - (&one << b)) % q);
    }
    let mut l = Lcg(seed);
    for _ in 0..n {
        let mut x = BigUint::zero();
        for _ in 0..(q.bits() / 64 + 1) {
            x = (x << 64usize) + l.next();
        }
        v.push(x % q);
    }
    v.sort();
    v.dedup();
    v
}

fn check_scale(sc: &RnsScaler, from: &[u64], to: &[u64], num: &BigUint, den: &BigUint, x: &BigUint, rests: &[u64], windows: bool) -> Result<u64, String> {
    let q = prod(from);
    let got = sc.scale_new(ArrayView1::from(rests), to.len());
    let ok = scale_ok(x, &q, num, den);
    if !ok.iter().any(|y| residues(y, to) == got) {
        return Err(format!("scaling x={x} (mod {q}) by {num}/{den} into {to:?} gave {got:?}, expected {:?} (integer {})", residues(&ok[0], to), ok[0]));
    }
    let mut t = 1;
    if windows {
        for a in 0..to.len() {
            for b in a + 1..=to.len() {
                let mut out = Array1::<u64>::from_elem(b - a, 0xdead);
                sc.scale(ArrayView1::from(rests), out.view_mut(), a);
                if out.as_slice().unwrap() != &got[a..b] {
                    return Err(format!("window {a}..{b} of scaling x={x} by {num}/{den} gave {out:?}, full result {got:?}"));
                }
                t += 1;
            }
        }
    }
    Ok(t)
}

pub fn a03(r: &Rep) {
    let t = r.thorough;
    r.assume("ties are rounded half up (the convention of the repository's tests); within 2^-50 of a non-exact tie, or of q/2, either neighbour is accepted because the implementation documents 127 fractional bits");
    let alpha: Vec<u64> = if t { (0..=18).chain([25, 27, 32, 49, 1 << 62, (1 << 62) - 1, (1 << 62) + 1, u64::MAX]).collect() } else { (0..=12).chain([(1 << 62) - 1, (1 << 62) + 1, u64::MAX]).collect() };
    r.suite("lists", &format!("RnsContext::new on every list of length 0..=3 over {alpha:?}: accepted exactly when non-empty, pairwise coprime and every modulus supported"), |s| {
        let ls = lists(&alpha, 3);
        s.par(&ls, |l| {
            s.case(&format!("{l:?}"), || {
                let want = !l.is_empty() && coprime(l) && l.iter().all(|m| *m >= 2 && *m < 1 << 62);
                let got = RnsContext::new(l);
                if got.is_ok() != want {
                    return Err(format!("RnsContext::new({l:?}) is_ok = {}, expected {want}", got.is_ok()));
                }
                if let Ok(c) = got {
                    s.outcome(h64(l));
                    if c.modulus() != &prod(l) {
                        return Err("modulus() is not the product".into());
                    }
                    if c.get_garner(l.len()).is_some() {
                        return Err("garner coefficient beyond the list".into());
                    }
                    for i in 0..l.len() {
                        let g = c.get_garner(i).ok_or("garner missing")?;
                        for j in 0..l.len() {
                            if (g % l[j]).to_u64().unwrap() != u64::from(i == j) % l[j] {
                                return Err(format!("garner {i} is {g}"));
                            }
                        }
                    }
                }
                Ok(1)
            });
        });
    });
    r.suite("many-moduli", "lists of 8..=16, 20, 24, 32, 40, 48, 64, 128 and 256 moduli of 60..=62 bits (every length up to 16 at 62 bits), scaled by t/q, 1/2, 1/3, 2/3, p/q and q/p: the residue vectors that drive the implementation's accumulators to their extremes (r_i = q_i - 1 exactly where the rounded-away part of the i-th coefficient is positive, the opposite polarity, all maximal, and the same scaled to 1/2, 3/4 and 7/8 of the range)", |s| {
        let mut ws: Vec<(u32, usize, usize)> = vec![];
        for (b, ns) in [(62u32, (8..=16).chain([20, 24, 32, 40, 48, 64, 128, 256]).collect::<Vec<usize>>()), (61, vec![15, 16, 17, 20, 32, 64]), (60, vec![30, 32, 34, 64])] {
            for n in ns {
                for f in 0..6 {
                    ws.push((b, n, f));
                }
            }
        }
        s.par(&ws, |&(b, n, f)| {
            let from = ntt_primes(b, 16, n);
            let q = prod(&from);
            let p62 = ntt_primes(59, 16, 2);
            let to: Vec<u64> = if f < 4 { from[..3].to_vec() } else { p62.clone() };
            let one = BigUint::from(1u32);
            let (num, den) = match f {
                0 => (BigUint::from(65537u32), q.clone()),
                1 => (one.clone(), BigUint::from(2u32)),
                2 => (one.clone(), BigUint::from(3u32)),
                3 => (BigUint::from(2u32), BigUint::from(3u32)),
                4 => (prod(&p62), q.clone()),
                _ => (q.clone(), prod(&p62)),
            };
            let cf = Arc::new(RnsContext::new(&from).unwrap());
            let ct = Arc::new(RnsContext::new(&to).unwrap());
            let sc = RnsScaler::new(&cf, &ct, ScalingFactor::new(&num, &den));
            let pos: Vec<bool> = (0..n).map(|i| (&num * cf.get_garner(i).unwrap() * 2u32) % (&den * 2u32) < den).collect();
            let mut vs: Vec<Vec<u64>> = vec![];
            for pat in 0..4usize {
                for sh in [(1u128, 1u128), (7, 8), (3, 4), (1, 2)] {
                    vs.push((0..n).map(|i| if match pat { 0 => pos[i], 1 => !pos[i], 2 => true, _ => i % 2 == 0 } { ((from[i] - 1) as u128 * sh.0 / sh.1) as u64 } else { 0 }).collect());
                }
            }
            for (k, rests) in vs.iter().enumerate() {
                s.case(&format!("{n} moduli of {b} bits, factor {f}, vector {k}"), || {
                    let x = crt(rests, &from);
                    s.outcome(h64(rests));
                    check_scale(&sc, &from, &to, &num, &den, &x, rests, false)
                });
            }
        });
    });
    let cap = if t { 20000u64 } else { 3000 };
    r.suite("small-bijection", &format!("every pairwise-coprime list over 2..=13 of length 1..=4 with product <= {cap}: every integer and every residue tuple"), |s| {
        let al: Vec<u64> = (2..=13).collect();
        let ls: Vec<Vec<u64>> = lists(&al, 4).into_iter().filter(|l| !l.is_empty() && coprime(l) && prod(l) <= BigUint::from(cap)).collect();
        s.par(&ls, |l| {
            let c = RnsContext::new(l).unwrap();
            let q = prod(l).to_u64().unwrap();
            for x in 0..q {
                at([x as u128, 0, 0, 0, 0, 0]);
                let res = c.project(&BigUint::from(x));
                let want: Vec<u64> = l.iter().map(|m| x % m).collect();
                if res != want {
                    s.fail(&format!("{l:?} x={x}"), &format!("project gave {res:?}"));
                }
                let y = c.lift(ArrayView1::from(&want));
                if y != BigUint::from(x) {
                    s.fail(&format!("{l:?} x={x}"), &format!("lift gave {y}"));
                }
            }
            s.outcome(h64(l));
            s.cases(q);
            s.states(q);
            s.transitions(2 * q);
        });
    });
    r.suite("big-bijection", "lists up to 6x62 bits, mixed sizes, powers of two, 16 tiny primes: corner integers (extremes, q/2, multiples of q/q_i, powers of two) and values >= q", |s| {
        let bl = big_lists();
        s.par(&bl, |l| {
            let c = RnsContext::new(l).unwrap();
            let q = prod(l);
            if c.modulus() != &q {
                s.fail(&format!("{l:?}"), "modulus() is not the product");
            }
            let vs = corners(&q, l, if t { 4000 } else { 400 }, 3);
            for x in &vs {
                let want: Vec<u64> = l.iter().map(|m| (x % *m).to_u64().unwrap()).collect();
                for add in [BigUint::zero(), q.clone(), &q * 5u32] {
                    let res = c.project(&(x + add));
                    if res != want {
                        s.fail(&format!("{l:?} x={x}"), &format!("project gave {res:?}"));
                    }
                }
                let y = c.lift(ArrayView1::from(&want));
                if &y != x || crt(&want, l) != y {
                    s.fail(&format!("{l:?} x={x}"), &format!("lift gave {y}"));
                }
                s.outcome(h64(&want));
            }
            s.cases(vs.len() as u64);
            s.states(vs.len() as u64);
            s.transitions(4 * vs.len() as u64);
        });
    });
    let small: Vec<Vec<u64>> = vec![vec![2], vec![3], vec![7], vec![16], vec![2, 3], vec![7, 5], vec![16, 9], vec![5, 7, 11], vec![4, 9, 5], vec![3, 2, 5, 7], vec![13, 8, 3]];
    let nums: Vec<u64> = if t { (0..=20).chain([31, 64, 101]).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 12, 17] };
    let dens: Vec<u64> = if t { (1..=20).chain([31, 64, 101]).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 12, 17] };
    r.suite("small-scaling", &format!("every x below q for {} from-lists x {} to-lists x {}x{} factors, every window of target residues", small.len(), small.len(), nums.len(), dens.len()), |s| {
        let mut items = vec![];
        for a in &small {
            for b in &small {
                items.push((a.clone(), b.clone()));
            }
        }
        s.par(&items, |(a, b)| {
            let ca = Arc::new(RnsContext::new(a).unwrap());
            let cb = Arc::new(RnsContext::new(b).unwrap());
            let q = prod(a).to_u64().unwrap();
            for n in &nums {
                for d in &dens {
                    let (nb, db) = (BigUint::from(*n), BigUint::from(*d));
                    let sc = RnsScaler::new(&ca, &cb, ScalingFactor::new(&nb, &db));
                    let mut tr = 0;
                    for x in 0..q {
                        at([x as u128, *n as u128, *d as u128, q as u128, 0, 0]);
                        let res: Vec<u64> = a.iter().map(|m| x % m).collect();
                        // fast integer oracle (exact, half up); q/2 ties go through the general oracle
                        let y = if 2 * x > q { x as i64 - q as i64 } else { x as i64 };
                        let v = (2 * y * *n as i64 + *d as i64).div_euclid(2 * *d as i64);
                        let want: Vec<u64> = b.iter().map(|m| v.rem_euclid(*m as i64) as u64).collect();
                        let got = sc.scale_new(ArrayView1::from(&res), b.len());
                        tr += 1;
                        if got != want || x % 16 == 0 {
                            match check_scale(&sc, a, b, &nb, &db, &BigUint::from(x), &res, true) {
                                Ok(k) => tr += k,
                                Err(e) => s.fail(&format!("{a:?}->{b:?} {n}/{d} x={x}"), &e),
                            }
                        }
                    }
                    s.cases(q);
                    s.states(q);
                    s.transitions(tr);
                    if s.stop() {
                        return;
                    }
                }
            }
            s.outcome(h64(&(a, b)));
        });
    });
    r.suite("big-scaling", "11x11 big lists x factors (1, q'/q, t/q, q/t, large, tiny, powers of two) x corner integers incl. the neighbourhood of every kind of rounding boundary; every window", |s| {
        let bl = big_lists();
        let mut items = vec![];
        for (i, a) in bl.iter().enumerate() {
            for (j, b) in bl.iter().enumerate() {
                items.push((i, j, a.clone(), b.clone()));
            }
        }
        s.par(&items, |(i, j, a, b)| {
            let ca = Arc::new(RnsContext::new(a).unwrap());
            let cb = Arc::new(RnsContext::new(b).unwrap());
            let (q, p) = (prod(a), prod(b));
            let one = BigUint::one();
            let mut f = vec![(one.clone(), one.clone()), (p.clone(), q.clone()), (BigUint::from(65537u32), q.clone()), (q.clone(), BigUint::from(65537u32)), (BigUint::from(3u32), one.clone()), (one.clone(), BigUint::from(1u64 << 40)), (q.clone(), p.clone())];
            if t {
                f.extend([(BigUint::from(4611686018326724610u64), BigUint::from(1001u32)), (q.clone(), q.clone()), (&q - 1u32, q.clone()), (one.clone(), q.clone()), (BigUint::from(2u32), BigUint::from(3u32)), (&p * 2u32, &q * 3u32)]);
            }
            for (k, (n, d)) in f.iter().enumerate() {
                let sc = RnsScaler::new(&ca, &cb, ScalingFactor::new(n, d));
                let mut xs = corners(&q, a, if t { 400 } else { 30 }, k as u64 + 7);
                // x with x*n/d close to a half integer: x = round((k + 1/2) d / n) +- small
                for c in 0..20u32 {
                    let kk = BigInt::from(c) * BigInt::from(if c % 2 == 0 { 1 } else { -7 });
                    if n.is_zero() {
                        continue;
                    }
                    let h = rdiv(&((kk * 2 + 1) * bi(d)), &(bi(n) * 2));
                    // and, when scaling down, its geometric approach from both sides
                    let near: Vec<BigInt> = if c < 4 { (2..50usize).flat_map(|b| { let z: BigInt = bi(d) >> b; let z = z / bi(n); [z.clone(), -z] }).collect() } else { vec![] };
                    for e in (-1..=1).map(BigInt::from).chain(near) {
                        let y: BigInt = &h + e;
                        if y.magnitude() * 2u32 < q {
                            xs.push(modp(&y, &q));
                        }
                    }
                }
                let mut tr = 0;
                for (xi, x) in xs.iter().enumerate() {
                    let res: Vec<u64> = a.iter().map(|m| (x % *m).to_u64().unwrap()).collect();
                    match check_scale(&sc, a, b, n, d, x, &res, xi % 8 == 0) {
                        Ok(k) => tr += k,
                        Err(e) => s.fail(&format!("lists {i}->{j} factor {k} x={x}"), &e),
                    }
                }
                s.cases(xs.len() as u64);
                s.states(xs.len() as u64);
                s.transitions(tr);
            }
            s.outcome(h64(&(a, b)));
        });
    });
}
