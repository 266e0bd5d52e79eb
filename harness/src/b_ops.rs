//! B08 multiplication strategies, B09 rotations and inner sums, B10 expansion, B11 RGSW products, B12 dot products.
use crate::a_poly::pb;
use crate::b_core::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{
    dot_product_scalar, Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext,
    RGSWCiphertext, RelinearizationKey, SecretKey,
};
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{traits::TryConvertFrom, Ntt, Poly, PowerBasis};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncoderVariableTime, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::BTreeSet;

pub fn er<T>(r: fhe::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e}"))
}
/// levels of a set where the plaintext modulus fits
pub fn lv(ps: &Ps) -> Vec<usize> {
    (0..ps.levels()).filter(|l| ps.qq(*l) > ps.t).collect()
}
/// Two-part operands of one level with different origins.
pub fn operands(ps: &Ps, l: usize, k: usize) -> Vec<Cm> {
    let ms = messages(ps, 12);
    let mut v = vec![
        fresh(ps, &ms[10], l, 21, 1, true),
        fresh(ps, &ms[1], l, 22, 2, false),
        fresh(ps, &ms[4], l, 23, 3, true),
    ];
    let pk = ps.pk(98, 1, true);
    v.push(fresh_pk(ps, &pk, &ms[11], l, 5));
    if l > 0 {
        let mut c = fresh(ps, &ms[9], 0, 24, 1, true);
        c.ct.switch_to_level(l).unwrap();
        c.w = ps.w_down(&c.w, 2, 0, l);
        c.level = l;
        v.push(c);
    }
    let (a, b) = (&v[0], &v[2]);
    v.push(Cm { ct: &a.ct - &b.ct, m: ps.psub(&a.m, &b.m), parts: 2, level: l, w: &a.w + &b.w });
    v.push(fresh(ps, &ms[0], l, 25, 1, true));
    v.truncate(k);
    v
}
/// 62-bit primes outside the ciphertext moduli
fn extra(ps: &Ps, k: usize) -> Vec<u64> {
    ntt_primes(62, 2 * ps.n as u64, k + ps.q.len()).into_iter().filter(|p| !ps.q.contains(p)).take(k).collect()
}

pub struct Strategy {
    pub name: String,
    pub m: Multiplicator,
    /// scaling of the operands relative to Q, as rationals num/den (1/1 when unscaled)
    pub f: [(BigUint, BigUint); 2],
}
pub fn w_strategy(ps: &Ps, s: &Strategy, a: &Cm, b: &Cm, level: usize) -> BigUint {
    let one = BigUint::one();
    let eff = |w: &BigUint, f: &(BigUint, BigUint)| {
        if f.1 == one {
            w.clone()
        } else {
            w + &ps.t * (&ps.s1[2] + 1u32) * &f.1 / (&f.0 * 2u32) + 1u32
        }
    };
    ps.w_mul((&eff(&a.w, &s.f[0]), 2), (&eff(&b.w, &s.f[1]), 2), level) + 2u32 * &ps.t
}
pub fn strategies(ps: &Ps, level: usize) -> Vec<Strategy> {
    let q = ps.qq(level);
    let one = BigUint::one();
    let ql = ps.ql(level);
    let nb = ql.len();
    let mut v = vec![];
    let mut add = |name: &str, fl: (BigUint, BigUint), fr: (BigUint, BigUint), basis: Vec<u64>, post: (BigUint, BigUint)| {
        let m = Multiplicator::new_leveled(
            ScalingFactor::new(&fl.0, &fl.1),
            ScalingFactor::new(&fr.0, &fr.1),
            &basis,
            ScalingFactor::new(&post.0, &post.1),
            level,
            &ps.par,
        )
        .unwrap_or_else(|e| panic!("strategy {name} at level {level}: {e}"));
        v.push(Strategy { name: name.into(), m, f: [fl, fr] });
    };
    let u = (one.clone(), one.clone());
    let qbits = q.bits() as usize;
    let k = (qbits + 60).div_ceil(61);
    let ex = extra(ps, 3 * nb + 6);
    // plain: extend, multiply, divide
    let mut basis: Vec<u64> = ql.to_vec();
    basis.extend(&ex[..k]);
    add("plain", u.clone(), u.clone(), basis.clone(), (ps.t.clone(), q.clone()));
    // a basis disjoint from the ciphertext moduli
    let k2 = (2 * qbits + 20).div_ceil(61);
    add("disjoint basis", u.clone(), u.clone(), ex[..k2].to_vec(), (ps.t.clone(), q.clone()));
    // one operand switched from Q to P of about the same size, smaller or larger
    for d in [0isize, 1] {
        let kp = (qbits.div_ceil(62) as isize + d) as usize;
        let p = &ex[..kp];
        let pp = prod(p);
        let mut basis: Vec<u64> = ql.to_vec();
        basis.extend(p);
        let f = (pp.clone(), q.clone());
        add(&format!("right by P/Q, {kp} primes"), u.clone(), f.clone(), basis.clone(), (ps.t.clone(), pp.clone()));
        add(&format!("left by P/Q, {kp} primes"), f.clone(), u.clone(), basis.clone(), (ps.t.clone(), pp.clone()));
        let k3 = (2 * pp.bits() as usize + 12 + ps.n.ilog2() as usize).div_ceil(61);
        add(&format!("both by P/Q, {kp} primes"), f.clone(), f.clone(), ex[..k3].to_vec(), (&ps.t * &q, &pp * &pp));
    }
    // integer factor
    let three = (BigUint::from(3u32), one.clone());
    let k4 = (2 * qbits + 24).div_ceil(61);
    add("left by 3", three, u, ex[..k4].to_vec(), (ps.t.clone(), &q * 3u32));
    v
}
fn sets8() -> Vec<fn() -> Ps> {
    vec![p0, p1, p2, p3, p4, p5, p6, p7, p8]
}
pub fn rks(ps: &Ps, l: usize) -> Vec<(usize, RelinearizationKey)> {
    (0..=l)
        .filter(|k| ps.ql(*k).len() > 1)
        .map(|k| (k, if (l, k) == (0, 0) { RelinearizationKey::new(&ps.sk, &mut rng(900)) } else { RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(900 + 10 * l as u64 + k as u64)) }.unwrap()))
        .collect()
}

pub fn b08(r: &Rep) {
    crate::b_seq::multiplicators(r);
    shapes(r, "products", &|ps, l, k, c| {
        let last = l + 1 == ps.levels();
        let d = fresh(ps, &messages(ps, 10)[9], l, 5, 3, false);
        let m = ps.pmul(&c.m, &d.m);
        let w3 = ps.w_mul((&c.w, 2), (&d.w, 2), l) + 2u32 * &ps.t;
        let mut z = 0;
        if k == 0 {
            z += verify(ps, &Cm { ct: &c.ct * &d.ct, m: m.clone(), parts: 3, level: l, w: w3.clone() }).map_err(|e| format!("operator: {e}"))?;
        }
        if ps.ql(k).len() < 2 {
            return Ok(z);
        }
        let rk = er(RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(9 + k as u64)), "relinearisation key")?;
        let w2 = &w3 + ps.w_ks(l, k);
        let mut ct = &c.ct * &d.ct;
        er(rk.relinearizes(&mut ct), "relinearisation")?;
        z += verify(ps, &Cm { ct, m: m.clone(), parts: 2, level: l, w: w2.clone() }).map_err(|e| format!("relinearised: {e}"))?;
        let mut mu = er(Multiplicator::default(&rk), "default multiplicator")?;
        z += verify(ps, &Cm { ct: er(mu.multiply(&c.ct, &d.ct), "multiply")?, m: m.clone(), parts: 2, level: l, w: w2.clone() }).map_err(|e| format!("default multiplicator: {e}"))?;
        if !last {
            er(mu.enable_mod_switching(), "modulus switching")?;
            let x = Cm { ct: er(mu.multiply(&c.ct, &d.ct), "multiply")?, m: m.clone(), parts: 2, level: l + 1, w: ps.w_down(&w2, 2, l, l + 1) };
            if ps.qq(l + 1) > ps.t {
                z += verify(ps, &x).map_err(|e| format!("default multiplicator, switched: {e}"))?;
            }
        }
        if k == 0 && ps.levels() <= 6 {
            for s in strategies(ps, l) {
                let w = w_strategy(ps, &s, c, &d, l);
                z += verify(ps, &Cm { ct: er(s.m.multiply(&c.ct, &d.ct), &s.name)?, m: m.clone(), parts: 3, level: l, w }).map_err(|e| format!("{}: {e}", s.name))?;
            }
        }
        Ok(z)
    });
    let degs: Vec<usize> = if r.thorough { vec![8, 64, 512, 1024, 2048, 4096, 8192] } else { vec![8, 1024, 4096] };
    r.suite("headroom", &format!("N in {degs:?} x every total of 108..=126 bits of modulus in two primes, and three primes around 186 bits: operands whose parts are all within one of +-Q/2 (the largest tensor product there is), constant and alternating, by the operator, the default strategy and the strategy list"), |su| {
        let mut items = vec![];
        for n in degs.iter().rev() {
            for sum in 108..=124usize {
                items.push((*n, vec![sum / 2, sum - sum / 2]));
            }
            for sum in [176usize, 177, 178, 179, 186] {
                items.push((*n, vec![sum / 3, sum / 3, sum - 2 * (sum / 3)]));
            }
        }
        su.par(&items, |(n, sizes)| {
            let ps = Ps::new(&format!("headroom-n{n}-{sizes:?}"), *n, bu(257), Mods::Sizes(sizes), 2, Secret::Sparse);
            let mut pats: Vec<Vec<BigUint>> = vec![];
            let q = ps.qq(0);
            let h = &q >> 1usize;
            pats.push(vec![h.clone(); *n]);
            pats.push((0..*n).map(|j| if j % 2 == 0 { h.clone() } else { &h + 1u32 }).collect());
            if *n <= 1024 || r.thorough {
                pats.push((0..*n).map(|j| if (j * j / 3) % 2 == 0 { h.clone() } else { &q - &h }).collect());
            }
            let ms = [ps.msg(&[3, 0, 250, 1, 128]), ps.msg(&[256; 8])];
            for (i, a) in pats.iter().enumerate() {
                su.case(&format!("{} pattern {i}", ps.name), || {
                    let rk = er(RelinearizationKey::new(&ps.sk, &mut rng(3)), "relinearisation key")?;
                    let mu = er(Multiplicator::default(&rk), "default multiplicator")?;
                    let mut z = 0;
                    let x = Cm { ct: ps.enc_with(&ms[0], 0, a, &ps.errs(1)), m: ms[0].clone(), parts: 2, level: 0, w: ps.w_sk() };
                    z += verify(&ps, &x)?;
                    for (k, b) in pats.iter().enumerate().take(if *n > 1024 { 1 } else { 3 }) {
                        let y = Cm { ct: ps.enc_with(&ms[1], 0, b, &ps.errs(3)), m: ms[1].clone(), parts: 2, level: 0, w: ps.w_sk() };
                        let m = ps.pmul(&x.m, &y.m);
                        let w = ps.w_mul((&x.w, 2), (&y.w, 2), 0) + 2u32 * &ps.t;
                        z += verify(&ps, &Cm { ct: &x.ct * &y.ct, m: m.clone(), parts: 3, level: 0, w: w.clone() }).map_err(|e| format!("operator, pattern {k}: {e}"))?;
                        z += verify(&ps, &Cm { ct: er(mu.multiply(&x.ct, &y.ct), "multiply")?, m, parts: 2, level: 0, w: w + ps.w_ks(0, 0) }).map_err(|e| format!("default multiplicator, pattern {k}: {e}"))?;
                    }
                    su.outcome(h64(&(n, sizes, i)));
                    Ok(z)
                });
            }
        });
    });
    let mut sets = sets8();
    sets.push(p9);
    for f in sets {
        let ps = f();
        r.suite(
            &format!("strategies-{}", ps.name),
            &format!("every level x strategy (operator, default, plain, disjoint basis, P/Q scaling left/right/both with two sizes of P, integer factor) x relinearisation key level or none x modulus switching x operand pairs; N={} t={} moduli {:?}", ps.n, ps.t, ps.q),
            |su| {
                for l in lv(&ps) {
                    let no = if r.thorough { 7 } else if ps.n > 32 { 3 } else { 4 };
                    let ops = operands(&ps, l, no);
                    let keys = rks(&ps, l);
                    let last = l + 1 == ps.levels();
                    let mut ss = strategies(&ps, l);
                    for (k, key) in &keys {
                        if let Ok(m) = Multiplicator::default(key) {
                            ss.push(Strategy { name: format!("default[{k}]"), m, f: [(BigUint::one(), BigUint::one()), (BigUint::one(), BigUint::one())] });
                        } else {
                            su.fail(&format!("default[{l},{k}]"), "Multiplicator::default failed");
                        }
                    }
                    let pairs: Vec<(usize, usize)> = (0..ops.len()).flat_map(|a| (0..ops.len()).map(move |b| (a, b))).collect();
                    let nonempty = !ss.is_empty();
                    assert!(nonempty);
                    // operator product followed by relinearisation with every key
                    su.par(&pairs, |&(i, j)| {
                        let (a, b) = (&ops[i], &ops[j]);
                        su.case(&format!("level {l} operator {i},{j}"), || {
                            let c = Cm { ct: &a.ct * &b.ct, m: ps.pmul(&a.m, &b.m), parts: 3, level: l, w: ps.w_mul((&a.w, 2), (&b.w, 2), l) };
                            let mut n = verify(&ps, &c)?;
                            for (k, key) in &keys {
                                let mut d = c.clone();
                                er(key.relinearizes(&mut d.ct), "relinearisation")?;
                                d.parts = 2;
                                d.w += ps.w_ks(l, *k);
                                n += verify(&ps, &d).map_err(|e| format!("relinearised with key level {k}: {e}"))?;
                            }
                            su.outcome(h64(&(l, i, j)));
                            Ok(n)
                        });
                        for s in &ss {
                            let dflt = s.name.starts_with("default");
                            let dk: usize = if dflt { s.name[8..s.name.len() - 1].parse().unwrap() } else { 0 };
                            for rk in 0..=if dflt { 0 } else { keys.len() } {
                                for sw in [false, true] {
                                    if sw && last {
                                        continue;
                                    }
                                    let key = format!("level {l} {} key {rk} switch {sw} operands {i},{j}", s.name);
                                    su.case(&key, || {
                                        let mut m = s.m.clone();
                                        let mut w = w_strategy(&ps, s, a, b, l);
                                        let mut parts = 3;
                                        if rk > 0 {
                                            er(m.enable_relinearization(&keys[rk - 1].1), "enable_relinearization")?;
                                            w += ps.w_ks(l, keys[rk - 1].0);
                                            parts = 2;
                                        } else if dflt {
                                            w += ps.w_ks(l, dk);
                                            parts = 2;
                                        }
                                        let mut to = l;
                                        if sw {
                                            er(m.enable_mod_switching(), "enable_mod_switching")?;
                                            to += 1;
                                            w = ps.w_down(&w, parts, l, to);
                                        }
                                        let (ba, bb) = (a.ct.clone(), b.ct.clone());
                                        let ct = er(m.multiply(&a.ct, &b.ct), "multiply")?;
                                        if !same(&ba, &a.ct) || !same(&bb, &b.ct) {
                                            return Err("an operand changed".into());
                                        }
                                        let c = Cm { ct, m: ps.pmul(&a.m, &b.m), parts, level: to, w };
                                        if ps.qq(to) <= ps.t {
                                            structure(&ps, &c.ct, parts, to)?;
                                            return Ok(0);
                                        }
                                        su.outcome(h64(&(&s.name, rk, sw, l)));
                                        verify(&ps, &c)
                                    });
                                }
                            }
                        }
                    });
                }
            },
        );
        r.suite(&format!("refusals-{}", ps.name), "every level x strategy x operands of every other level, of 0..4 parts, of parameters that differ in the variance or the plaintext modulus, keys of every other level and of other parameters; failed configuration calls leave the multiplicator as it was", |su| {
            // only the noise variance differs
            let v2 = if ps.var == 1 { 2 } else { ps.var as usize - 1 };
            let other = Ps::with("other variance", mk_par(ps.n, &ps.t, &Mods::List(&ps.q), v2).unwrap(), v2, Secret::Random(404));
            // same moduli, another plaintext modulus
            let t2 = BigUint::from(3u32);
            let foreign = mk_par(ps.n, &t2, &Mods::List(&ps.q), ps.var as usize).ok().map(|p| Ps::with("foreign", p, ps.var as usize, Secret::Random(405)));
            let levels = lv(&ps);
            su.par(&levels, |&l| {
                let a = &operands(&ps, l, 1)[0];
                let mut bad: Vec<(String, Ciphertext)> = vec![];
                for o in 0..ps.levels() {
                    if o != l {
                        bad.push((format!("level {o}"), with_zero(&ps, o, 2)));
                    }
                }
                for p in [0usize, 3, 4, 5] {
                    bad.push((format!("{p} parts"), if p == 0 { Ciphertext::zero(&ps.par) } else { with_zero(&ps, l, p) }));
                }
                bad.push(("another variance".into(), with_zero(&other, l, 2)));
                if let Some(f) = &foreign {
                    bad.push(("other parameters".into(), with_zero(f, l, 2)));
                }
                for s in strategies(&ps, l) {
                    for (name, c) in &bad {
                        su.case(&format!("level {l} {} with {name}", s.name), || {
                            for (x, y, side) in [(&a.ct, c, "right"), (c, &a.ct, "left")] {
                                let (bx, by) = (x.clone(), y.clone());
                                if let Ok(z) = s.m.multiply(x, y) {
                                    return Err(format!("{side} operand with {name} was accepted ({} parts)", z.len()));
                                }
                                if !same(&bx, x) || !same(&by, y) {
                                    return Err("a refused product changed an operand".into());
                                }
                            }
                            su.outcome(h64(name));
                            Ok(2)
                        });
                    }
                    // refused configuration
                    let mut m = s.m.clone();
                    for o in 0..ps.levels() {
                        for (k, key) in rks(&ps, o) {
                            if o != l {
                                su.case(&format!("level {l} {} key for level {o}/{k}", s.name), || {
                                    if m.enable_relinearization(&key).is_ok() {
                                        return Err("a key for another level was accepted".into());
                                    }
                                    Ok(1)
                                });
                            }
                        }
                    }
                    if let Some(f) = &foreign {
                        for (k, key) in rks(f, l) {
                            su.case(&format!("level {l} {} key of other parameters {k}", s.name), || {
                                if m.enable_relinearization(&key).is_ok() {
                                    return Err("a relinearisation key of other parameters was accepted".into());
                                }
                                Ok(1)
                            });
                        }
                    }
                    if l + 1 == ps.levels() {
                        su.case(&format!("level {l} {} switching", s.name), || {
                            if m.enable_mod_switching().is_ok() {
                                return Err("modulus switching enabled at the last level".into());
                            }
                            Ok(1)
                        });
                    }
                    su.case(&format!("level {l} {} after refusals", s.name), || {
                        if m != s.m {
                            return Err("a refused configuration call changed the multiplicator".into());
                        }
                        if !same(&er(m.multiply(&a.ct, &a.ct), "multiply")?, &er(s.m.multiply(&a.ct, &a.ct), "multiply")?) {
                            return Err("a refused configuration call changed the results".into());
                        }
                        Ok(1)
                    });
                }
                // relinearisation refusals
                for (k, key) in rks(&ps, l) {
                    let mut list = bad.clone();
                    list.push(("2 parts".into(), a.ct.clone()));
                    for o in 0..ps.levels() {
                        if o != l {
                            list.push((format!("3 parts at level {o}"), with_zero(&ps, o, 3)));
                        }
                    }
                    list.retain(|x| x.0 != "3 parts");
                    list.push(("3 parts, another variance".into(), with_zero(&other, l, 3)));
                    for (name, c) in &list {
                        su.case(&format!("relinearise level {l} key {k}: {name}"), || {
                            let mut d = c.clone();
                            if key.relinearizes(&mut d).is_ok() {
                                return Err(format!("relinearisation accepted {name}"));
                            }
                            if !same(&d, c) {
                                return Err("a refused relinearisation changed the ciphertext".into());
                            }
                            Ok(1)
                        });
                    }
                }
                // keys above the ciphertext level, or where key switching is impossible
                for k in 0..ps.levels() + 2 {
                    let admissible = k <= l && ps.ql_len(k) > 1;
                    if admissible {
                        continue;
                    }
                    su.case(&format!("inadmissible key level {k} for level {l}"), || {
                        let Ok(key) = RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(5)) else { return Ok(1) };
                        let c = &a.ct * &a.ct;
                        let mut d = c.clone();
                        if key.relinearizes(&mut d).is_ok() {
                            return Err("relinearisation with an inadmissible key was accepted".into());
                        }
                        if !same(&c, &d) {
                            return Err("a refused relinearisation changed the ciphertext".into());
                        }
                        Ok(1)
                    });
                }
                for bl in [ps.levels(), ps.levels() + 1, usize::MAX] {
                    su.case(&format!("level {bl}"), || {
                        if RelinearizationKey::new_leveled(&ps.sk, bl, 0, &mut rng(5)).is_ok() || RelinearizationKey::new_leveled(&ps.sk, 0, bl, &mut rng(5)).is_ok() {
                            return Err("a key for a level that does not exist".into());
                        }
                        let o = ScalingFactor::one();
                        if Multiplicator::new_leveled(o.clone(), o.clone(), &extra(&ps, 4), o.clone(), bl, &ps.par).is_ok() {
                            return Err("a multiplicator for a level that does not exist".into());
                        }
                        Ok(1)
                    });
                }
            });
        });
    }
}
/// A ciphertext with the given number of parts at a level (all parts non-zero multiples of x).
pub fn with_zero(ps: &Ps, level: usize, parts: usize) -> Ciphertext {
    let ctx = ps.par.context_at_level(level).unwrap();
    let rows: Vec<Vec<u64>> = ps.ql(level).iter().map(|q| (0..ps.n as u64).map(|j| (j * 5 + 1) % q).collect()).collect();
    let p = pb(ctx, &rows, true).into_ntt();
    Ciphertext::new(vec![p; parts], &ps.par).unwrap()
}
impl Ps {
    pub fn ql_len(&self, level: usize) -> usize {
        self.q.len().saturating_sub(level)
    }
}

// ---------------------------------------------------------------- rotations
pub fn ek(ps: &Ps, l: usize, k: usize, f: impl FnOnce(&mut EvaluationKeyBuilder)) -> EvaluationKey {
    let mut b = if (l, k) == (0, 0) { EvaluationKeyBuilder::new(&ps.sk) } else { EvaluationKeyBuilder::new_leveled(&ps.sk, l, k) }.unwrap();
    f(&mut b);
    b.build(&mut rng(7000 + (l * 10 + k) as u64)).unwrap()
}
fn slots(ps: &Ps, m: &Msg, l: usize) -> Option<Vec<u64>> {
    let v: Vec<u64> = m.iter().map(|x| x.to_u64()).collect::<Option<_>>()?;
    let pt = Plaintext::try_encode(v.as_slice(), Encoding::poly_at_level(l), &ps.par).ok()?;
    // reading the same plaintext as slots
    let c: Ciphertext = ps.sk_enc(&pt, 3).ok()?;
    let d = ps.sk.try_decrypt(&c).ok()?;
    Vec::<u64>::try_decode(&d, Encoding::simd_at_level(l)).ok()
}
fn read_slots(ps: &Ps, ct: &Ciphertext) -> Result<Vec<u64>, String> {
    let d = er(ps.sk.try_decrypt(ct), "decryption")?;
    er(Vec::<u64>::try_decode(&d, Encoding::simd()), "slot decoding")
}
fn group_sum(ps: &Ps, m: &Msg) -> Msg {
    let mut s = ps.zero_msg();
    if ps.n > 1024 {
        // all roots of unity of order 4 and more have trace zero (smaller degrees: by the definition)
        s[0] = &m[0] * ps.n as u64 % &ps.t;
        return s;
    }
    for e in (1..2 * ps.n).step_by(2) {
        s = ps.padd(&s, &ps.psub_exp(m, e));
    }
    s
}
fn pow3(ps: &Ps, i: usize) -> usize {
    (0..i).fold(1usize, |a, _| a * 3 % (2 * ps.n))
}
/// noise after the inner sum
fn w_inner(ps: &Ps, w: &BigUint, l: usize, k: usize) -> BigUint {
    let mut w = w.clone();
    for _ in 0..ps.n.ilog2() {
        w = &w * 2u32 + ps.w_ks(l, k) + &ps.t;
    }
    w
}
fn sets9() -> Vec<fn() -> Ps> {
    vec![p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, pr1]
}
/// 32 slots, small word-size moduli
fn pr1() -> Ps {
    Ps::new("n32-t193-45,30,62", 32, bu(193), Mods::Sizes(&[45, 30, 62]), 5, Secret::Random(10))
}
fn pr2() -> Ps {
    Ps::new("n1024-t12289-2x58", 1024, bu(12289), Mods::Sizes(&[58, 58]), 10, Secret::Random(11))
}

pub fn b09(r: &Rep) {
    let mut sets = sets9();
    if r.thorough {
        sets.push(pr2);
    }
    for f in sets {
        let ps = f();
        let n = ps.n;
        r.suite(
            &format!("rotations-{}", ps.name),
            &format!("all (ciphertext level, key level) pairs x every column step, row swap, inner sum x messages and operand origins, coefficients and slots; N={n} t={} moduli {:?}", ps.t, ps.q),
            |su| {
                let big = n > 256;
                let mut jobs = vec![];
                for l in lv(&ps) {
                    for k in 0..=l {
                        jobs.push((l, k));
                    }
                }
                for &(l, k) in &jobs {
                    let steps: Vec<usize> = if big { (0..9).map(|i| 1 << i).chain([3, 511, 510]).collect() } else { (1..n / 2).collect() };
                    let key = ek(&ps, l, k, |b| {
                        b.enable_row_rotation().unwrap().enable_inner_sum().unwrap();
                        for &i in &steps {
                            b.enable_column_rotation(i).unwrap();
                        }
                    });
                    let mut ops = operands(&ps, l, if r.thorough { 7 } else if n > 16 { 3 } else { 5 });
                    if big {
                        ops.truncate(2);
                    }
                    // unit messages move single coefficients
                    if !big {
                        for i in [0, 1, n / 2, n - 1] {
                            let mut m = ps.zero_msg();
                            m[i] = BigUint::one();
                            ops.push(fresh(&ps, &m, l, 60 + i as u64, i, i % 2 == 0));
                        }
                    }
                    let simd: Vec<Option<Vec<u64>>> = ops.iter().map(|c| slots(&ps, &c.m, l)).collect();
                    let items: Vec<(usize, usize)> = (0..ops.len()).flat_map(|o| (0..steps.len() + 2).map(move |s| (o, s))).collect();
                    su.par(&items, |&(o, s)| {
                        let c = &ops[o];
                        let (what, step) = match s {
                            0 => ("rows".to_string(), 0),
                            1 => ("inner sum".to_string(), 0),
                            _ => (format!("columns by {}", steps[s - 2]), steps[s - 2]),
                        };
                        su.case(&format!("levels {l}/{k} operand {o} {what}"), || {
                            let before = c.ct.clone();
                            let (ct, m, w) = match s {
                                0 => (key.rotates_rows(&c.ct), ps.psub_exp(&c.m, 2 * n - 1), &c.w + ps.w_ks(l, k) + &ps.t),
                                1 => (key.computes_inner_sum(&c.ct), group_sum(&ps, &c.m), w_inner(&ps, &c.w, l, k)),
                                _ => (key.rotates_columns_by(&c.ct, step), ps.psub_exp(&c.m, pow3(&ps, step)), &c.w + ps.w_ks(l, k) + &ps.t),
                            };
                            let ct = er(ct, &what)?;
                            if !same(&before, &c.ct) {
                                return Err("the operand changed".into());
                            }
                            let x = Cm { ct, m, parts: 2, level: l, w };
                            let mut z = verify(&ps, &x)?;
                            if let (Some(v), true) = (&simd[o], ps.ok(&x.w, l)) {
                                let got = read_slots(&ps, &x.ct)?;
                                let h = n / 2;
                                let t = ps.t.to_u64().unwrap();
                                let want: Vec<u64> = match s {
                                    0 => (0..n).map(|i| v[(i + h) % n]).collect(),
                                    1 => {
                                        let sm = v.iter().fold(0u128, |a, x| (a + *x as u128) % t as u128) as u64;
                                        vec![sm; n]
                                    }
                                    _ => (0..n).map(|i| if i < h { v[(i + step) % h] } else { v[h + (i - h + step) % h] }).collect(),
                                };
                                if got != want {
                                    return Err(format!("slots {v:?} became {got:?}, expected {want:?}"));
                                }
                                z += 1;
                            }
                            su.outcome(h64(&(&what, l, k)));
                            Ok(z)
                        });
                    });
                }
            },
        );
    }
    support_suites(r);
    crate::b_seq::builders(r);
    shapes(r, "rotations", &|ps, l, k, c| {
        let n = ps.n;
        let key = ek(ps, l, k, |b| {
            b.enable_inner_sum().unwrap().enable_column_rotation(n / 2 - 1).unwrap();
        });
        let w = &c.w + ps.w_ks(l, k) + &ps.t;
        let mut z = 0;
        for (what, ct, m, w) in [
            ("rows", key.rotates_rows(&c.ct), ps.psub_exp(&c.m, 2 * n - 1), w.clone()),
            ("columns by 1", key.rotates_columns_by(&c.ct, 1), ps.psub_exp(&c.m, 3), w.clone()),
            ("columns by N/2-1", key.rotates_columns_by(&c.ct, n / 2 - 1), ps.psub_exp(&c.m, pow3(ps, n / 2 - 1)), w.clone()),
            ("inner sum", key.computes_inner_sum(&c.ct), group_sum(ps, &c.m), w_inner(ps, &c.w, l, k)),
        ] {
            z += verify(ps, &Cm { ct: er(ct, what)?, m, parts: 2, level: l, w }).map_err(|e| format!("{what}: {e}"))?;
        }
        Ok(z)
    });
}

/// All lists of modulus sizes up to a length, and longer ones whose sizes rise or fall.
pub fn shape_list(thorough: bool) -> Vec<Vec<usize>> {
    let s = [20usize, 41, 62];
    let mut v: Vec<Vec<usize>> = (1..=if thorough { 5 } else { 4 }).flat_map(|k| all_tuples(3, k)).map(|x| x.into_iter().map(|i| s[i]).collect()).collect();
    v.extend([
        vec![62, 62, 62, 20, 20, 20],
        vec![20, 20, 20, 62, 62, 62],
        vec![20, 30, 40, 50, 60, 62],
        vec![62, 60, 50, 40, 30, 20],
        vec![62, 20, 62, 20, 62, 20, 62],
        vec![45; 8],
        vec![62; 10],
        vec![31, 62, 31, 62, 31, 62, 31, 62, 31, 62, 31, 62],
    ]);
    v
}
/// Runs f on every shape of parameters, every (ciphertext level, key level), and a ciphertext of an extreme and a mixed message.
pub fn shapes(r: &Rep, what: &str, f: &(dyn Fn(&Ps, usize, usize, &Cm) -> Result<u64, String> + Sync)) {
    let list = shape_list(r.thorough);
    r.suite(&format!("shapes-{what}"), &format!("every list of up to {} modulus sizes from {{20, 41, 62}} bits and lists of up to 12 moduli x plaintext moduli 17 and 2^21+9 x every (ciphertext level, key level); N=8", if r.thorough { 5 } else { 4 }), |su| {
        let items: Vec<(usize, u64)> = (0..list.len()).flat_map(|i| [(i, 17u64), (i, (1 << 21) + 9)]).filter(|(i, t)| *t == 17 || list[*i] != [20]).collect();
        su.par(&items, |&(i, t)| {
            let ps = Ps::new(&format!("{:?}-t{t}", list[i]), 8, bu(t), Mods::Sizes(&list[i]), 3, Secret::Random(70 + i as u64));
            on_levels(su, &ps, list[i].len() > 6, &[(10, 3), (1, 1)], f);
        });
    });
    // long chains: sums over the moduli at their longest
    let chains: Vec<(u64, Vec<usize>)> = if r.thorough { vec![(17, vec![62; 17]), ((1 << 40) + 15, vec![62; 25]), (257, vec![61; 33]), (17, vec![62; 40]), (3, vec![62; 64])] } else { vec![(17, vec![62; 17]), (257, vec![62; 27])] };
    r.suite(&format!("chains-{what}"), &format!("chains of moduli (plaintext modulus, sizes) in {chains:?} x the first, second, middle and last two levels and their keys; N=8"), |su| {
        let sets: Vec<std::sync::OnceLock<Ps>> = chains.iter().map(|_| Default::default()).collect();
        let mut items: Vec<(usize, usize, usize)> = vec![];
        for (i, c) in chains.iter().enumerate().rev() {
            let n = c.1.len();
            items.extend([(0, 0), (1, 0), (1, 1), (n / 2, 0), (n / 2, n / 2), (n - 2, 0), (n - 1, n - 1)].map(|(l, k)| (i, l, k)));
        }
        su.par(&items, |&(i, l, k)| {
            let (t, c) = &chains[i];
            let ps = sets[i].get_or_init(|| Ps::new(&format!("{}x{}-t{t}", c.len(), c[0]), 8, bu(*t), Mods::Sizes(c), 3, Secret::Random(7 + i as u64)));
            if lv(ps).contains(&l) {
                on_level(su, ps, l, k, &[(10, 3)], f);
            }
        });
    });
    // larger degrees: the same operations where transforms, tables and error growth differ
    let mut large: Vec<(usize, u64, Vec<usize>)> = vec![(16, 97, vec![62, 30, 62]), (64, 257, vec![62, 41, 62]), (256, 7681, vec![40, 62, 50, 62]), (1024, 12289, vec![58, 58, 58]), (4096, 40961, vec![50, 55, 60])];
    if r.thorough {
        large.extend([(128, 65537, vec![45; 6]), (512, 2, vec![50, 62, 40]), (2048, 12289, vec![54, 54, 55]), (8192, 65537, vec![43, 43, 44, 44, 44])]);
    }
    r.suite(&format!("degrees-{what}"), &format!("(degree, plaintext modulus, modulus sizes) in {large:?} x every (ciphertext level, key level)"), |su| {
        let sets: Vec<Ps> = large.iter().map(|(n, t, m)| Ps::new(&format!("n{n}-{m:?}-t{t}"), *n, bu(*t), Mods::Sizes(m), 3, Secret::Random(*n as u64))).collect();
        let mut items: Vec<(usize, usize, usize)> = sets.iter().enumerate().flat_map(|(i, p)| lv(p).into_iter().flat_map(move |l| (0..=l).map(move |k| (i, l, k)))).collect();
        items.sort_by_key(|(i, l, k)| (usize::MAX - sets[*i].n, *l, *k));
        su.par(&items, |&(i, l, k)| {
            let ps = &sets[i];
            // the largest degrees: equal levels and the lowest key
            if ps.n > 1024 && !r.thorough && (k != l || l == 1) {
                return;
            }
            on_level(su, ps, l, k, &[(10, 3)], f);
        });
    });
    // the largest degrees there are
    let huge: Vec<(usize, Secret)> = [8192usize, 16384, 32768, 65536].into_iter().map(|n| (n, if n == 16384 || n == 65536 { Secret::Sparse } else { Secret::Random(n as u64) })).collect();
    r.suite(&format!("largest-{what}"), "degrees 8192, 16384, 32768, 65536 x plaintext modulus 786433 x moduli of 60, 61 and 62 bits x level pairs (0,0), (1,0), (1,1)", |su| {
        let sets: Vec<std::sync::OnceLock<Ps>> = huge.iter().map(|_| Default::default()).collect();
        let items: Vec<(usize, usize, usize)> = (0..huge.len()).rev().flat_map(|i| [(0, 0), (1, 1), (1, 0)].map(|(l, k)| (i, l, k))).collect();
        su.par(&items, |&(i, l, k)| {
            let ps = sets[i].get_or_init(|| Ps::new(&format!("n{}", huge[i].0), huge[i].0, bu(786433), Mods::Sizes(&[60, 61, 62]), 3, huge[i].1.clone()));
            on_level(su, ps, l, k, &[(10, 3)], f);
        });
    });
}
type Op<'a> = &'a (dyn Fn(&Ps, usize, usize, &Cm) -> Result<u64, String> + Sync);
fn on_levels(su: &Suite, ps: &Ps, long: bool, picks: &[(usize, usize)], f: Op) {
    for l in lv(ps) {
        for k in 0..=l {
            // long lists: the neighbouring and the lowest key levels
            if !long || k == 0 || k + 1 >= l {
                on_level(su, ps, l, k, picks, f);
            }
        }
    }
}
fn on_level(su: &Suite, ps: &Ps, l: usize, k: usize, picks: &[(usize, usize)], f: Op) {
    let ms = messages(ps, 12);
    su.case(&format!("{} levels {l}/{k}", ps.name), || {
        let mut z = 0;
        for (x, e) in picks {
            z += f(ps, l, k, &fresh(ps, &ms[*x], l, 80 + *x as u64, *e, e % 2 == 1))?;
        }
        su.outcome(h64(&(&ps.name, l, k)));
        Ok(z)
    });
}

/// Support queries against behaviour, for every subset of what can be enabled.
fn support_suites(r: &Rep) {
    for (f, all) in [(p0 as fn() -> Ps, true), (p2, false), (p5, true), (p6, false)] {
        let ps = f();
        let n = ps.n;
        let cols = n / 2 - 1;
        let nl = n.ilog2() as usize;
        let nsub = if n == 8 { 1usize << (cols + 2) } else { 0 };
        r.suite(&format!("support-{}", ps.name), &format!("every subset of {{row rotation, inner sum, each column step}} x expansion level 0..={nl} (N=8) or every singleton and pair (larger N), at {} level pairs: every operation either is reported supported and computes the right result, or is reported unsupported and fails", if all { "all" } else { "two" }), |su| {
            let mut subs: Vec<Vec<usize>> = vec![];
            if nsub > 0 {
                for s in 0..nsub {
                    subs.push((0..cols + 2).filter(|i| s >> i & 1 == 1).collect());
                }
            } else {
                subs.push(vec![]);
                for a in 0..cols + 2 {
                    subs.push(vec![a]);
                    for b in a + 1..cols + 2 {
                        subs.push(vec![a, b]);
                    }
                }
                subs.push((0..cols + 2).collect());
            }
            let mut pairs: Vec<(usize, usize)> = lv(&ps).into_iter().flat_map(|l| (0..=l).map(move |k| (l, k))).collect();
            if !all {
                pairs = vec![pairs[0], *pairs.last().unwrap()];
            }
            if !r.thorough && pairs.len() > 3 {
                // first, a mixed pair, last
                pairs = vec![pairs[0], pairs[1], *pairs.last().unwrap()];
            }
            let mut items = vec![];
            for p in &pairs {
                for s in 0..subs.len() {
                    for x in 0..=nl {
                        items.push((*p, s, x));
                    }
                }
            }
            su.par(&items, |&((l, k), s, x)| {
                let sub = &subs[s];
                su.case(&format!("levels {l}/{k} enabled {sub:?} expansion {x}"), || {
                    let key = ek(&ps, l, k, |b| {
                        for &i in sub {
                            match i {
                                0 => b.enable_row_rotation().unwrap(),
                                1 => b.enable_inner_sum().unwrap(),
                                _ => b.enable_column_rotation(i - 1).unwrap(),
                            };
                        }
                        b.enable_expansion(x).unwrap();
                    });
                    // round trips must not change what is supported
                    let key2 = er(EvaluationKey::from_bytes(&key.to_bytes(), &ps.par), "reading the key back")?;
                    for (key, rt) in [(&key, false), (&key2, true)] {
                        support(&ps, key, l, k, sub, x).map_err(|e| if rt { format!("after a round trip: {e}") } else { e })?;
                    }
                    su.outcome(h64(&(s, x)));
                    Ok(2)
                });
            });
        });
        r.suite(&format!("builder-errors-{}", ps.name), "column steps 0, N/2.., expansion levels above log N, inadmissible level pairs; refused calls leave the builder usable", |su| {
            for l in 0..ps.levels() + 2 {
                for k in 0..ps.levels() + 2 {
                    su.case(&format!("levels {l}/{k}"), || {
                        let ok = l < ps.levels() && k <= l;
                        let b = EvaluationKeyBuilder::new_leveled(&ps.sk, l, k);
                        if b.is_ok() != ok {
                            return Err(format!("builder for levels {l}/{k}: {}", if ok { "refused" } else { "accepted" }));
                        }
                        let Ok(mut b) = b else { return Ok(1) };
                        for i in [0, n / 2, n / 2 + 1, n - 1, n, 2 * n - 1, 2 * n + 1, usize::MAX] {
                            if b.enable_column_rotation(i).is_ok() {
                                return Err(format!("column rotation by {i} was accepted"));
                            }
                        }
                        for x in [nl + 1, nl + 2, 64, usize::MAX] {
                            if b.enable_expansion(x).is_ok() {
                                return Err(format!("expansion level {x} was accepted"));
                            }
                        }
                        b.enable_row_rotation().map_err(|e| e.to_string())?;
                        let key = er(b.build(&mut rng(3)), "build")?;
                        support(&ps, &key, l, k, &[0], 0)?;
                        // building again extends the abilities
                        b.enable_column_rotation(1).map_err(|e| e.to_string())?;
                        let key = er(b.build(&mut rng(4)), "second build")?;
                        support(&ps, &key, l, k, &[0, 2], 0)?;
                        Ok(1)
                    });
                }
            }
        });
    }
}

/// Every operation of an evaluation key against what was enabled and what is reported.
pub fn support(ps: &Ps, key: &EvaluationKey, l: usize, k: usize, enabled: &[usize], xl: usize) -> Result<(), String> {
    let n = ps.n;
    let nl = n.ilog2() as usize;
    let ms = messages(ps, 12);
    let c = fresh(ps, &ms[10], l, 77, 1, true);
    if !ps.ok(&c.w, l) {
        return Ok(());
    }
    let check = |what: &str, must: bool, reported: bool, got: fhe::Result<Ciphertext>, m: Msg, w: BigUint| -> Result<(), String> {
        if must && !reported {
            return Err(format!("{what} was enabled but is not reported as supported"));
        }
        if reported != got.is_ok() {
            return Err(format!("{what} is reported as {} but {}", if reported { "supported" } else { "unsupported" }, got.err().map(|e| e.to_string()).unwrap_or("succeeds".into())));
        }
        if let Ok(ct) = got {
            verify(ps, &Cm { ct, m, parts: 2, level: l, w }).map_err(|e| format!("{what}: {e}"))?;
        }
        Ok(())
    };
    let w1 = &c.w + ps.w_ks(l, k) + &ps.t;
    let inner = enabled.contains(&1);
    check("row rotation", enabled.contains(&0) || inner, key.supports_row_rotation(), key.rotates_rows(&c.ct), ps.psub_exp(&c.m, 2 * n - 1), w1.clone())?;
    check("inner sum", inner, key.supports_inner_sum(), key.computes_inner_sum(&c.ct), group_sum(ps, &c.m), w_inner(ps, &c.w, l, k))?;
    for i in 0..n + 2 {
        let valid = i >= 1 && i < n / 2;
        let must = valid && (enabled.contains(&(i + 1)) || inner && i.is_power_of_two());
        let rep = key.supports_column_rotation_by(i);
        if rep && !valid {
            return Err(format!("support for the invalid step {i} is reported"));
        }
        check(&format!("column rotation by {i}"), must, rep, key.rotates_columns_by(&c.ct, i), ps.psub_exp(&c.m, pow3(ps, i % n)), w1.clone())?;
    }
    for x in 0..nl + 3 {
        let rep = key.supports_expansion(x);
        if x <= xl && !rep {
            return Err(format!("expansion to level {x} was enabled but is not reported as supported"));
        }
        if x > nl {
            if rep {
                return Err(format!("expansion to level {x} cannot exist but is reported"));
            }
            continue;
        }
        let sizes: Vec<usize> = if x == 0 { vec![1] } else { vec![(1 << (x - 1)) + 1, 1 << x] };
        for size in sizes {
            let got = key.expands(&c.ct, size);
            if got.is_ok() != rep {
                return Err(format!("expansion level {x} is reported as {rep}, expanding to {size}: {:?}", got.is_ok()));
            }
        }
    }
    for size in [0usize, n + 1, 2 * n, usize::MAX / 2 + 2, usize::MAX] {
        if key.expands(&c.ct, size).is_ok() {
            return Err(format!("expansion to {size} ciphertexts succeeded"));
        }
    }
    Ok(())
}

pub fn b10(r: &Rep) {
    let mut sets = sets9();
    if r.thorough {
        sets.push(pr2);
    }
    for f in sets {
        let ps = f();
        let n = ps.n;
        let nl = n.ilog2() as usize;
        r.suite(
            &format!("expansion-{}", ps.name),
            &format!("all level pairs x keys for every expansion level x every size 1..=N (and 0, N+1.., unsupported) x messages; N={n} t={} moduli {:?}", ps.t, ps.q),
            |su| {
                for l in lv(&ps) {
                    for k in 0..=l {
                        let keys: Vec<EvaluationKey> = (0..=nl)
                            .filter(|x| n <= 64 || [1, 3, nl].contains(x))
                            .map(|x| ek(&ps, l, k, |b| { b.enable_expansion(x).unwrap(); }))
                            .collect();
                        let xs: Vec<usize> = (0..=nl).filter(|x| n <= 64 || [1, 3, nl].contains(x)).collect();
                        let sizes: Vec<usize> = if n <= 64 { (0..=n + 2).collect() } else { vec![1, 2, 3, 7, 8, 9, 1000, 1024] };
                        let mut items = vec![];
                        for s in &sizes {
                            for x in 0..keys.len() {
                                // larger keys are interchangeable: the exact one and the largest
                                let need = s.next_power_of_two().ilog2() as usize;
                                if xs[x] <= need || xs[x] == nl {
                                    items.push((*s, x));
                                }
                            }
                        }
                        su.par(&items, |&(size, x)| {
                            let key = &keys[x];
                            su.case(&format!("levels {l}/{k} key for {} size {size}", xs[x]), || {
                                let need = if size == 0 { 0 } else { size.next_power_of_two().ilog2() as usize };
                                let ok = size >= 1 && size <= n && need <= xs[x];
                                if size >= 1 && size <= n && key.supports_expansion(need) != ok {
                                    return Err(format!("supports_expansion({need}) = {}", !ok));
                                }
                                let width = size.next_power_of_two().min(n);
                                let all = messages(&ps, 12);
                                let mut z = 0;
                                let picks: &[usize] = if n > 16 { &[10] } else { &[1, 4, 10] };
                                for &i in picks {
                                    let m: Msg = all[i].iter().enumerate().map(|(j, v)| if j < width { v.clone() } else { BigUint::zero() }).collect();
                                    let c = fresh(&ps, &m, l, 300 + i as u64, i, i % 2 == 0);
                                    let before = c.ct.clone();
                                    let got = key.expands(&c.ct, size);
                                    if !same(&before, &c.ct) {
                                        return Err("the operand changed".into());
                                    }
                                    if !ok {
                                        if got.is_ok() {
                                            return Err("an unsupported expansion succeeded".into());
                                        }
                                        z += 1;
                                        continue;
                                    }
                                    let got = er(got, "expansion")?;
                                    if got.len() != size {
                                        return Err(format!("{} ciphertexts, expected {size}", got.len()));
                                    }
                                    let mut w = c.w.clone();
                                    for _ in 0..need {
                                        w = &w * 2u32 + ps.w_ks(l, k) + &ps.t;
                                    }
                                    for (j, ct) in got.into_iter().enumerate() {
                                        if n > 256 && j > 8 && j + 8 < size {
                                            continue;
                                        }
                                        let mut e = ps.zero_msg();
                                        e[0] = (&m[j] << need) % &ps.t;
                                        z += verify(&ps, &Cm { ct, m: e, parts: 2, level: l, w: w.clone() }).map_err(|e| format!("output {j} of {size} (message {i}): {e}"))?;
                                    }
                                }
                                su.outcome(h64(&(size, xs[x], l, k)));
                                Ok(z)
                            });
                        });
                        su.case(&format!("levels {l}/{k} refused operands"), || {
                            let key = keys.last().unwrap();
                            let mut bad: Vec<(String, Ciphertext)> = vec![];
                            for o in 0..ps.levels() {
                                if o != l {
                                    bad.push((format!("level {o}"), with_zero(&ps, o, 2)));
                                }
                            }
                            for p in [0usize, 3, 4] {
                                bad.push((format!("{p} parts"), if p == 0 { Ciphertext::zero(&ps.par) } else { with_zero(&ps, l, p) }));
                            }
                            for (name, c) in &bad {
                                for size in 1..=4usize.min(n) {
                                    if key.expands(c, size).is_ok() {
                                        return Err(format!("{name}: expanded to {size}"));
                                    }
                                }
                                if key.rotates_rows(c).is_ok() || key.computes_inner_sum(c).is_ok() || key.rotates_columns_by(c, 1).is_ok() {
                                    return Err(format!("{name}: rotated"));
                                }
                            }
                            Ok(1)
                        });
                    }
                }
            },
        );
    }
    support_suites(r);
    shapes(r, "expansion", &|ps, l, k, c| {
        let n = ps.n;
        let nl = n.ilog2() as usize;
        let mut z = 0;
        let sizes = if n > 256 { [32, 31, 3] } else { [n, n - 1, 3] };
        for size in sizes {
            let need = size.next_power_of_two().ilog2() as usize;
            let key = ek(ps, l, k, |b| {
                b.enable_expansion(if size == n { nl } else { need }).unwrap();
            });
            let mut m = c.m.clone();
            m[1 << need..].fill(BigUint::zero());
            let c = fresh(ps, &m, l, 17 + size as u64, 3, true);
            let mut w = c.w.clone();
            for _ in 0..need {
                w = &w * 2u32 + ps.w_ks(l, k) + &ps.t;
            }
            let out = er(key.expands(&c.ct, size), "expansion")?;
            if out.len() != size {
                return Err(format!("{} ciphertexts, expected {size}", out.len()));
            }
            for (j, ct) in out.into_iter().enumerate() {
                // large degrees: the ends and the middle
                if n > 64 && ![0, 1, size / 2, size - 2, size - 1].contains(&j) {
                    continue;
                }
                let mut e = ps.zero_msg();
                e[0] = (&m[j] << need) % &ps.t;
                z += verify(ps, &Cm { ct, m: e, parts: 2, level: l, w: w.clone() }).map_err(|e| format!("output {j} of {size}: {e}"))?;
            }
        }
        Ok(z)
    });
}

// ---------------------------------------------------------------- RGSW
pub fn rgsw(ps: &Ps, m: &Msg, l: usize, seed: u64) -> fhe::Result<RGSWCiphertext> {
    <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&ps.sk, &ps.plaintext(m, l), &mut rng(seed))
}
pub fn w_rgsw(ps: &Ps, w: &BigUint, m: &Msg, l: usize) -> BigUint {
    let l1: BigUint = m.iter().sum();
    w * l1 + 2u32 * ps.w_ks(l, l) + &ps.t
}
pub fn b11(r: &Rep) {
    shapes(r, "external", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let mut z = 0;
        for i in [9usize, 2, 3] {
            let m = &messages(ps, 10)[i];
            let g = er(rgsw(ps, m, l, i as u64), "RGSW encryption")?;
            z += verify(ps, &Cm { ct: &c.ct * &g, m: ps.pmul(&c.m, m), parts: 2, level: l, w: w_rgsw(ps, &c.w, m, l) }).map_err(|e| format!("message {i}: {e}"))?;
        }
        Ok(z)
    });
    let mut sets = sets9();
    sets.retain(|f| f().n <= 64);
    for f in sets {
        let ps = f();
        r.suite(
            &format!("external-{}", ps.name),
            &format!("every level x RGSW messages x ciphertexts x operand order x {{as made, either or both read back}}, and chains of two external products; N={} t={} moduli {:?}", ps.n, ps.t, ps.q),
            |su| {
                for l in lv(&ps) {
                    let mut ms = messages(&ps, if ps.n > 16 { 8 } else { 11 });
                    // constants and signed monomials: the usual selectors
                    for i in 0..3usize {
                        let mut m = ps.zero_msg();
                        m[i * (ps.n - 1) / 2] = if i == 1 { &ps.t - 1u32 } else { BigUint::one() };
                        ms.push(m);
                    }
                    let ops = operands(&ps, l, if r.thorough { 7 } else { 4 });
                    let idx: Vec<usize> = (0..ms.len()).collect();
                    su.par(&idx, |&i| {
                        let m = &ms[i];
                        let g = match rgsw(&ps, m, l, 40 + i as u64) {
                            Ok(g) => g,
                            Err(e) => {
                                su.fail(&format!("level {l} message {i}"), &format!("RGSW encryption failed: {e}"));
                                return;
                            }
                        };
                        let Ok(g2) = RGSWCiphertext::from_bytes(&g.to_bytes(), &ps.par) else {
                            su.fail(&format!("level {l} message {i}"), "own encoding rejected");
                            return;
                        };
                        if g2 != g {
                            su.fail(&format!("level {l} message {i}"), "round trip differs");
                        }
                        for (j, c) in ops.iter().enumerate() {
                            su.case(&format!("level {l} rgsw {i} ciphertext {j}"), || {
                                let before = c.ct.clone();
                                let x = &c.ct * &g;
                                let y = &g * &c.ct;
                                let c2 = er(Ciphertext::from_bytes(&c.ct.to_bytes(), &ps.par), "reading back")?;
                                for (z, what) in [(&y, "other order"), (&(&c2 * &g), "ciphertext read back"), (&(&c.ct * &g2), "RGSW read back"), (&(&g2 * &c2), "both read back")] {
                                    if !same(&x, z) {
                                        return Err(format!("{what} gives another result"));
                                    }
                                }
                                if !same(&before, &c.ct) {
                                    return Err("the operand changed".into());
                                }
                                let a = Cm { ct: x, m: ps.pmul(&c.m, m), parts: 2, level: l, w: w_rgsw(&ps, &c.w, m, l) };
                                let mut n = verify(&ps, &a)?;
                                // a second product
                                let b = Cm { ct: &a.ct * &g2, m: ps.pmul(&a.m, m), parts: 2, level: l, w: w_rgsw(&ps, &a.w, m, l) };
                                n += verify(&ps, &b).map_err(|e| format!("second product: {e}"))?;
                                su.outcome(h64(&(l, i, j)));
                                Ok(n)
                            });
                        }
                    });
                    su.case(&format!("level {l} refusals"), || {
                        let g = er(rgsw(&ps, &ms[4], l, 1), "RGSW")?;
                        let mut bad: Vec<(String, Ciphertext)> = vec![];
                        for o in 0..ps.levels() {
                            if o != l {
                                bad.push((format!("level {o}"), with_zero(&ps, o, 2)));
                            }
                        }
                        for p in [0usize, 3, 4] {
                            bad.push((format!("{p} parts"), if p == 0 { Ciphertext::zero(&ps.par) } else { with_zero(&ps, l, p) }));
                        }
                        if let Ok(par) = mk_par(ps.n, &bu(3), &Mods::List(&ps.q), ps.var as usize) {
                            bad.push(("other parameters".into(), with_zero(&Ps::with("o", par, ps.var as usize, Secret::Random(1)), l, 2)));
                        }
                        if let Ok(par) = mk_par(ps.n * 2, &ps.t, &Mods::Sizes(&vec![58; ps.q.len()]), ps.var as usize) {
                            bad.push(("other degree".into(), with_zero(&Ps::with("o", par, ps.var as usize, Secret::Random(1)), l, 2)));
                        }
                        for (name, c) in &bad {
                            if guard(|| c * &g).is_ok() || guard(|| &g * c).is_ok() {
                                return Err(format!("{name}: the external product returned a result"));
                            }
                        }
                        let pt = Plaintext::zero(Encoding::poly_at_level(l), &mk_par(ps.n, &bu(if ps.t == bu(2) { 3 } else { 2 }), &Mods::List(&ps.q), ps.var as usize).unwrap()).unwrap();
                        if <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&ps.sk, &pt, &mut rng(1)).is_ok() {
                            return Err("a plaintext of other parameters was encrypted".into());
                        }
                        Ok(1)
                    });
                }
            },
        );
    }
}

// ---------------------------------------------------------------- dot products
fn pt_rows(ps: &Ps, pt: &Plaintext) -> Vec<Vec<u64>> {
    let ctx = ps.par.context_at_level(pt.level()).unwrap();
    let p = Poly::<PowerBasis>::try_convert_from(pt, ctx, false).unwrap().into_ntt();
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}
fn pd1() -> Ps {
    // every level has a different accumulation limit: 2^2 per lost bit
    let a = ntt_primes(62, 16, 2);
    let b = ntt_primes(61, 16, 1);
    let c = ntt_primes(60, 16, 1);
    Ps::new("n8-t70-60,61,62,62", 8, (BigUint::one() << 70usize) + 25u32, Mods::List(&[c[0], b[0], a[0], a[1]]), 10, Secret::Random(13))
}
fn pd2() -> Ps {
    // the smallest 62-bit-type moduli first, one small modulus last
    let a = ntt_primes(62, 32, 2);
    let c = ntt_primes(20, 32, 1);
    Ps::new("n16-t97-62,62,20", 16, bu(97), Mods::List(&[a[0], a[1], c[0]]), 10, Secret::Random(14))
}
pub fn b12(r: &Rep) {
    shapes(r, "dot", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let d = fresh(ps, &messages(ps, 10)[9], l, 5, 3, false);
        let small: Vec<Msg> = (0..3u64).map(|i| ps.msg(&(0..ps.n as u64).map(|j| if j < 4 { (i + 2 * j) % 5 } else { 0 }).collect::<Vec<_>>())).collect();
        let pts: Vec<Plaintext> = small.iter().map(|m| ps.plaintext(m, l)).collect();
        let mut z = 0;
        let counts: &[usize] = if ps.n > 256 { &[3, 40] } else { &[1, 15, 16, 17, 33, 64, 65, 70] };
        for &count in counts {
            let cs: Vec<&Cm> = (0..count).map(|i| if i % 3 == 1 { &d } else { c }).collect();
            let ct = er(dot_product_scalar(cs.iter().map(|c| &c.ct), (0..count).map(|i| &pts[i % 3])), "dot product")?;
            let mut m = ps.zero_msg();
            let mut w = BigUint::zero();
            // the terms repeat with period three
            for i in 0..3.min(count) {
                let times = bu((count - i).div_ceil(3) as u64);
                let p: Msg = ps.pmul(&cs[i].m, &small[i]).iter().map(|x| x * &times % &ps.t).collect();
                m = ps.padd(&m, &p);
                w += ps.w_mulpt(&cs[i].w, &small[i]) * times;
            }
            z += verify(ps, &Cm { ct, m, parts: 2, level: l, w }).map_err(|e| format!("{count} terms: {e}"))?;
        }
        Ok(z)
    });
    for f in [p0 as fn() -> Ps, p1, p2, p3, p4, p5, p6, p8, p9, pd1, pd2] {
        let ps = f();
        let maxc = if r.thorough { 300 } else { 80 };
        r.suite(
            &format!("counts-{}", ps.name),
            &format!("every count 1..={maxc} around the accumulator limits (and the limits of smaller moduli) x parts 2..5 x levels x {{extreme residues, ordinary}} x public or secret data, against exact residue arithmetic; N={} t={} moduli {:?}", ps.n, ps.t, ps.q),
            |su| {
                for l in 0..ps.levels() {
                    let ctx = ps.par.context_at_level(l).unwrap();
                    let ql = ps.ql(l);
                    // extreme ciphertexts: all NTT residues q-1; ordinary ones: pseudo-random
                    let mk = |k: usize, parts: usize, vt: bool| -> Ciphertext {
                        let mut lc = Lcg(0xD07 + k as u64);
                        let polys = (0..parts)
                            .map(|p| {
                                let rows: Vec<Vec<u64>> = ql
                                    .iter()
                                    .map(|q| (0..ps.n).map(|j| if k == 0 { q - 1 - ((p * j) as u64 & 1) } else { lc.next() % q }).collect())
                                    .collect();
                                // build in NTT form by inverse transforming exact residues
                                let flat: Vec<u64> = rows.concat();
                                let arr = ndarray::Array2::from_shape_vec((ql.len(), ps.n), flat).unwrap();
                                Poly::<Ntt>::try_convert_from(arr, ctx, vt).unwrap()
                            })
                            .collect();
                        Ciphertext::new(polys, &ps.par).unwrap()
                    };
                    let mut pms: Vec<Msg> = vec![];
                    let small = ql.iter().min().unwrap();
                    let cst = |c: BigUint| { let mut m = ps.zero_msg(); m[0] = c % &ps.t; m };
                    pms.push(cst(bu(small - 1)));
                    pms.push(cst(&ps.t - 1u32));
                    pms.extend(messages(&ps, 12)[9..].iter().cloned());
                    let mut counts: BTreeSet<usize> = (1..=maxc).collect();
                    for e in [64usize, 128, 256, 512, 1024] {
                        if r.thorough || e <= 256 {
                            counts.extend([e - 1, e, e + 1]);
                        }
                    }
                    let mut items = vec![];
                    for &c in &counts {
                        for parts in 2..=5usize {
                            if parts != 2 && c > 36 && c % 16 > 1 {
                                continue;
                            }
                            for kind in 0..3 {
                                items.push((c, parts, kind));
                            }
                        }
                    }
                    let pts: Vec<(Plaintext, Plaintext, Vec<Vec<u64>>)> = pms
                        .iter()
                        .map(|m| {
                            let a = ps.plaintext(m, l);
                            let b = if let Some(v) = m.iter().map(|x| x.to_u64()).collect::<Option<Vec<u64>>>() {
                                Plaintext::try_encode_vt(v.as_slice(), Encoding::poly_at_level(l), &ps.par, tvt()).unwrap()
                            } else {
                                a.clone()
                            };
                            let rows = pt_rows(&ps, &a);
                            (a, b, rows)
                        })
                        .collect();
                    let cts: Vec<Vec<Vec<Ciphertext>>> = (2..=5).map(|p| (0..5).map(|k| vec![mk(k, p, false), mk(k, p, true)]).collect()).collect();
                    su.par(&items, |&(count, parts, kind)| {
                        su.case(&format!("level {l} count {count} parts {parts} kind {kind}"), || {
                            let vt = kind == 2;
                            let ck = |i: usize| if kind == 0 { 0 } else { i % 5 };
                            let pk = |i: usize| if kind == 0 { 0 } else { (i / 2) % pts.len() };
                            let cs: Vec<&Ciphertext> = (0..count).map(|i| &cts[parts - 2][ck(i)][vt as usize]).collect();
                            let pp: Vec<&Plaintext> = (0..count).map(|i| if vt { &pts[pk(i)].1 } else { &pts[pk(i)].0 }).collect();
                            let got = er(dot_product_scalar(cs.iter().copied(), pp.iter().copied()), "dot product")?;
                            structure(&ps, &got, parts, l)?;
                            for p in 0..parts {
                                let g: Vec<Vec<u64>> = got[p].coefficients().outer_iter().map(|r| r.to_vec()).collect();
                                for (qi, &q) in ql.iter().enumerate() {
                                    let mut acc = vec![0u64; ps.n];
                                    for i in 0..count {
                                        let cv = cs[i][p].coefficients();
                                        let pv = &pts[pk(i)].2;
                                        for j in 0..ps.n {
                                            acc[j] = ((acc[j] as u128 + mulmod(cv[(qi, j)], pv[qi][j], q) as u128) % q as u128) as u64;
                                        }
                                    }
                                    if acc != g[qi] {
                                        return Err(format!("part {p} modulo {q}: {:?}, exact {acc:?}", g[qi]));
                                    }
                                }
                            }
                            if count == 3 && ps.qq(l) > ps.t {
                                // the sum of the individual products of the library
                                let mut s = cs[0] * pp[0];
                                s += &(cs[1] * pp[1]);
                                s += &(cs[2] * pp[2]);
                                if ct_rows(&s) != ct_rows(&got) {
                                    return Err("differs from the sum of products".into());
                                }
                            }
                            su.outcome(h64(&(l, count, parts, kind)));
                            Ok(parts as u64)
                        });
                    });
                }
            },
        );
        r.suite(&format!("iterators-{}", ps.name), "every pair of lengths 0..=4, {17, 40} x every truthful size hint of either iterator: the same ciphertext as the chain of products, or an error exactly for empty or unequal lengths", |su| {
            for l in lv(&ps) {
                let ops = operands(&ps, l, 4);
                let ms = messages(&ps, 12);
                let pts: Vec<Plaintext> = (0..5).map(|i| ps.plaintext(&ms[i * 2 + 1], l)).collect();
                let mut lens: Vec<(usize, usize)> = (0..=4).flat_map(|a| (0..=4).map(move |b| (a, b))).collect();
                lens.extend([(17, 17), (40, 40), (17, 40), (40, 17)]);
                for (a, b) in lens {
                    let mut sum: Option<Ciphertext> = None;
                    for h in 0..HINTS * HINTS {
                        su.case(&format!("level {l} lengths {a},{b} hints {h}"), || {
                            let x = Hint((0..a).map(|i| &ops[i % ops.len()].ct), h % HINTS);
                            let y = Hint((0..b).map(|i| &pts[i % 5]), h / HINTS);
                            let got = match dot_product_scalar(x, y) {
                                Ok(c) if a == b && a > 0 => c,
                                Err(_) if a != b || a == 0 => return Ok(1),
                                x => return Err(format!("accepted = {}", x.is_ok())),
                            };
                            let want = sum.get_or_insert_with(|| {
                                let mut s = &ops[0].ct * &pts[0];
                                for i in 1..a {
                                    s += &(&ops[i % ops.len()].ct * &pts[i % 5]);
                                }
                                s
                            });
                            (ct_rows(want) == ct_rows(&got)).then_some(1).ok_or_else(|| "differs from the sum of products".to_string())
                        });
                    }
                }
            }
        });
        r.suite(&format!("decrypts-{}", ps.name), "dot products of valid encryptions decrypt to the sum of the products, fast and general path", |su| {
            for l in lv(&ps) {
                let ops = operands(&ps, l, 4);
                let ms = messages(&ps, 12);
                let ls: Vec<usize> = vec![1, 2, 3, 5, 16, 17, 18, 33];
                su.par(&ls, |&count| {
                    su.case(&format!("level {l} count {count}"), || {
                        let cs: Vec<&Cm> = (0..count).map(|i| &ops[i % ops.len()]).collect();
                        let pm: Vec<&Msg> = (0..count).map(|i| &ms[(i * 5 + 1) % ms.len()]).collect();
                        let pp: Vec<Plaintext> = pm.iter().map(|m| ps.plaintext(m, l)).collect();
                        let ct = er(dot_product_scalar(cs.iter().map(|c| &c.ct), pp.iter()), "dot product")?;
                        let mut m = ps.zero_msg();
                        let mut w = BigUint::zero();
                        for i in 0..count {
                            m = ps.padd(&m, &ps.pmul(&cs[i].m, pm[i]));
                            w += ps.w_mulpt(&cs[i].w, pm[i]);
                        }
                        su.outcome(h64(&(l, count)));
                        verify(&ps, &Cm { ct, m, parts: 2, level: l, w })
                    });
                });
            }
        });
        r.suite(&format!("errors-{}", ps.name), "empty and unequal sequences; an incompatible element (level, parameters, parts) at every position of sequences on both sides of the fast-path limit", |su| {
            let v2 = if ps.var == 1 { 2 } else { ps.var as usize - 1 };
            let tw = Ps::with("other variance", mk_par(ps.n, &ps.t, &Mods::List(&ps.q), v2).unwrap(), v2, Secret::Random(1));
            for l in 0..ps.levels() {
                let good = with_zero(&ps, l, 2);
                let pt = ps.plaintext(&messages(&ps, 5)[4], l);
                let tpt = tw.plaintext(&messages(&tw, 5)[4], l);
                let mut badc: Vec<(String, Ciphertext)> = vec![("other variance".into(), with_zero(&tw, l, 2)), ("4 parts".into(), with_zero(&ps, l, 4)), ("3 parts".into(), with_zero(&ps, l, 3)), ("no parts".into(), Ciphertext::zero(&ps.par))];
                let mut badp: Vec<(String, Plaintext)> = vec![("other variance".into(), tpt)];
                for o in 0..ps.levels() {
                    if o != l {
                        badc.push((format!("level {o}"), with_zero(&ps, o, 2)));
                        badp.push((format!("level {o}"), ps.plaintext(&messages(&ps, 5)[4], o)));
                    }
                }
                for (a, b) in [(0usize, 0usize), (0, 1), (1, 0), (1, 2), (2, 1), (17, 18), (18, 17), (16, 17), (40, 1), (0, 40)] {
                    su.case(&format!("level {l} lengths {a},{b}"), || {
                        let cs = vec![good.clone(); a];
                        let pp = vec![pt.clone(); b];
                        if dot_product_scalar(cs.iter(), pp.iter()).is_ok() {
                            return Err("accepted".into());
                        }
                        Ok(1)
                    });
                }
                for len in [2usize, 3, 16, 17, 20] {
                    for pos in 0..len {
                        for (name, c) in &badc {
                            su.case(&format!("level {l} length {len} ciphertext {pos}: {name}"), || {
                                let mut cs = vec![&good; len];
                                cs[pos] = c;
                                let pp = vec![&pt; len];
                                if dot_product_scalar(cs.into_iter(), pp.into_iter()).is_ok() {
                                    return Err("accepted".into());
                                }
                                su.outcome(h64(&(name, pos)));
                                Ok(1)
                            });
                        }
                        for (name, p) in &badp {
                            su.case(&format!("level {l} length {len} plaintext {pos}: {name}"), || {
                                let cs = vec![&good; len];
                                let mut pp = vec![&pt; len];
                                pp[pos] = p;
                                if dot_product_scalar(cs.into_iter(), pp.into_iter()).is_ok() {
                                    return Err("accepted".into());
                                }
                                Ok(1)
                            });
                        }
                    }
                }
            }
        });
    }
}
