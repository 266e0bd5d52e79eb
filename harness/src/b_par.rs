//! B01 parameter acceptance, B02 parameter serialisation and level tables.
use crate::b_core::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Ciphertext, Encoding, Plaintext};
use fhe::proto::bfv as proto;
use fhe_math::rq::Context;
use fhe_traits::{Deserialize, DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, Serialize};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use prost::Message;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Cfg {
    degree: usize,
    t: BigUint,
    var: usize,
    moduli: Vec<u64>,
    sizes: Vec<usize>,
}

fn builder(c: &Cfg) -> BfvParametersBuilder {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(c.degree).set_plaintext_modulus_biguint(c.t.clone()).set_variance(c.var).set_moduli(&c.moduli).set_moduli_sizes(&c.sizes);
    b
}

/// Supported plaintext modulus: a machine word modulus below 2^62, or a big integer of more than 64 bits.
fn t_supported(t: &BigUint) -> bool {
    *t >= bu(2) && (*t < bu(1 << 62) || t.bits() > 64)
}
/// The acceptance rule, from the definition. For sizes it also yields the primes available per size.
fn accept(c: &Cfg) -> bool {
    if !(8..=65536).contains(&c.degree) || c.degree & (c.degree - 1) != 0 || !(1..=32).contains(&c.var) || !t_supported(&c.t) {
        return false;
    }
    if c.moduli.is_empty() == c.sizes.is_empty() {
        return false;
    }
    let m = 2 * c.degree as u64;
    let mods = if !c.moduli.is_empty() {
        c.moduli.clone()
    } else {
        let mut v: Vec<u64> = vec![];
        for &s in &c.sizes {
            if !(10..=62).contains(&s) {
                return false;
            }
            let k = c.sizes.iter().filter(|x| **x == s).count();
            let av = ntt_primes(s as u32, m, k);
            if av.len() < k {
                return false;
            }
            let n = v.iter().filter(|x| 64 - x.leading_zeros() as usize == s).count();
            v.push(av[n]);
        }
        v
    };
    for (i, &q) in mods.iter().enumerate() {
        if !(2..1 << 62).contains(&q) || q % m != 1 || !is_prime64(q) || mods[..i].contains(&q) {
            return false;
        }
        if (&c.t % q).is_zero() {
            return false;
        }
    }
    c.t < prod(&mods)
}

fn reports(c: &Cfg, p: &BfvParameters) -> Result<(), String> {
    if p.degree() != c.degree || p.plaintext_big() != &c.t {
        return Err(format!("degree {} / plaintext modulus {} reported", p.degree(), p.plaintext_big()));
    }
    if let Some(t) = c.t.to_u64() {
        if p.plaintext() != t {
            return Err("plaintext() differs".into());
        }
    }
    if !c.moduli.is_empty() && p.moduli() != c.moduli.as_slice() {
        return Err(format!("moduli {:?}", p.moduli()));
    }
    let sz: Vec<usize> = p.moduli().iter().map(|q| 64 - q.leading_zeros() as usize).collect();
    if p.moduli_sizes() != sz.as_slice() {
        return Err(format!("moduli_sizes {:?} for {:?}", p.moduli_sizes(), p.moduli()));
    }
    if !c.sizes.is_empty() {
        if sz != c.sizes {
            return Err(format!("generated sizes {sz:?}"));
        }
        for (i, &q) in p.moduli().iter().enumerate() {
            if !is_prime64(q) || q % (2 * c.degree as u64) != 1 || p.moduli()[..i].contains(&q) {
                return Err(format!("generated modulus {q} is not a fresh NTT prime"));
            }
        }
    }
    if p.max_level() != p.moduli().len() - 1 {
        return Err("max_level".into());
    }
    let pr = proto::Parameters::decode(p.to_bytes().as_slice()).map_err(|e| e.to_string())?;
    if pr.variance as usize != c.var || pr.degree as usize != c.degree || pr.moduli != p.moduli() {
        return Err(format!("the encoding reports degree {} variance {}", pr.degree, pr.variance));
    }
    Ok(())
}

fn one(su: &Suite, c: &Cfg) {
    su.case(&format!("{c:?}"), || {
        let want = accept(c);
        su.outcome(h64(&(want, c.degree, c.var, &c.moduli, &c.sizes, &c.t)));
        match (builder(c).build(), want) {
            (Ok(p), true) => {
                reports(c, &p)?;
                let q = builder(c).build_arc().map_err(|e| format!("build_arc: {e}"))?;
                if *q != p {
                    return Err("build and build_arc disagree".into());
                }
                Ok(2)
            }
            (Err(_), false) => Ok(1),
            (Ok(p), false) => Err(format!("unsound parameters accepted: moduli {:?}", p.moduli())),
            (Err(e), true) => Err(format!("sound parameters rejected: {e}")),
        }
    });
}

pub fn b01(r: &Rep) {
    let t = r.thorough;
    let q8 = |b: u32, k: usize| ntt_primes(b, 16, k);
    let base = Cfg { degree: 8, t: bu(17), var: 10, moduli: q8(30, 2), sizes: vec![] };
    r.suite("degrees", "every degree 0..=300 and around every power of two up to 2^20, extreme values; moduli friendly to the degree where possible", |su| {
        let mut ds: Vec<usize> = (0..=300).collect();
        for k in 8..=20 {
            ds.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
        }
        ds.extend([usize::MAX, usize::MAX / 2 + 1, 1 << 32, 1 << 40]);
        ds.sort();
        ds.dedup();
        // primes friendly to every degree up to 2^16
        let m = ntt_primes(40, 1 << 17, 1);
        su.par(&ds, |&d| {
            one(su, &Cfg { degree: d, moduli: m.clone(), ..base.clone() });
            one(su, &Cfg { degree: d, moduli: vec![], sizes: vec![40], ..base.clone() });
        });
    });
    r.suite("friendliness", "every supported degree x moduli friendly to exactly each other power of two", |su| {
        let mut items = vec![];
        for k in 3..=16u32 {
            for j in 3..=16u32 {
                // congruent to 1 mod 2^(j+1) but not mod 2^(j+2)
                let q = ntt_primes(35, 1 << (j + 1), 40).into_iter().find(|q| q % (1 << (j + 2)) != 1).unwrap();
                items.push(Cfg { degree: 1 << k, moduli: vec![q], ..base.clone() });
            }
        }
        su.par(&items, |c| one(su, c));
    });
    r.suite("variances", "every variance 0..=100 and extreme values", |su| {
        for v in (0..=100).chain([1 << 31, 1 << 32, (1 << 32) + 10, usize::MAX]) {
            one(su, &Cfg { var: v, ..base.clone() });
        }
    });
    // moduli lists
    let pool: Vec<u64> = {
        let a = q8(62, 2);
        let b = q8(20, 2);
        let mut v = vec![a[0], a[1], b[0], b[1], 17, 97, 113];
        // not friendly, composite but congruent, even, trivial, too large
        v.extend([7, 23, 33, 17 * 97, 97 * 97, b[0] * 17, 81, 16, 0, 1, 2, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, u64::MAX, u64::MAX - 14]);
        // NTT-friendly prime of 63 bits
        v.push(ntt_primes(63, 16, 1)[0]);
        v.push(ntt_primes(64, 16, 1)[0]);
        // strong pseudoprimes / Carmichael numbers congruent to 1 modulo 16
        v.extend([561, 6601, 8911, 3215031751, 2152302898747, 3474749660383].into_iter().filter(|x| x % 16 == 1));
        v.sort();
        v.dedup();
        v
    };
    r.suite("moduli-lists", &format!("every list of up to three moduli from a pool of {} (friendly primes of all sizes, composites, pseudoprimes, duplicates, trivial and oversized values)", pool.len()), |su| {
        let mut items = vec![];
        for n in 0..=3 {
            if n == 3 && !t {
                // every multiset shape, triples restricted to the first entries of each class
                let p2: Vec<u64> = pool.iter().copied().step_by(2).collect();
                for v in all_tuples(p2.len(), 3) {
                    items.push(v.iter().map(|i| p2[*i]).collect::<Vec<_>>());
                }
            } else {
                for v in all_tuples(pool.len(), n) {
                    items.push(v.iter().map(|i| pool[*i]).collect::<Vec<_>>());
                }
            }
        }
        su.par(&items, |m| one(su, &Cfg { t: bu(5), moduli: m.clone(), ..base.clone() }));
    });
    r.suite("all-small-moduli", "every single modulus below 2^13 for degrees 8, 16 and 64; every pair below 700", |su| {
        let mut items = vec![];
        for d in [8usize, 16, 64] {
            for q in 0..8192u64 {
                items.push(Cfg { degree: d, t: bu(2), moduli: vec![q], ..base.clone() });
            }
        }
        for a in (1..700u64).step_by(16) {
            for b in (1..700u64).step_by(16) {
                items.push(Cfg { degree: 8, t: bu(3), moduli: vec![a, b], ..base.clone() });
            }
        }
        su.par(&items, |c| one(su, c));
    });
    // plaintext moduli
    r.suite("plaintext-moduli", "plaintext moduli around every bound (0..=40, word limits, each modulus and its multiples, products of moduli) x moduli lists", |su| {
        let lists = [vec![17u64], vec![97, 113], q8(20, 2), q8(62, 1), q8(62, 2), vec![q8(20, 1)[0], q8(62, 1)[0], 97], q8(62, 3)];
        let mut items = vec![];
        for l in &lists {
            let mut ts: Vec<BigUint> = (0..=40u64).map(bu).collect();
            let mut around: Vec<BigUint> = vec![prod(l), bu(1 << 61), bu(1 << 62), bu(1 << 63), bu(u64::MAX), bu(u64::MAX) * 2u32, BigUint::one() << 80usize, prod(l) / 2u32, prod(l) * 2u32];
            for q in l {
                around.push(bu(*q));
                around.push(bu(*q) * 2u32);
                around.push(bu(*q) * 3u32);
                around.push(bu(*q) * bu(*q));
                around.push(prod(l) / *q);
                around.push(bu(*q) << 64usize);
            }
            for a in around {
                for d in 0..=2u32 {
                    ts.push(&a + d);
                    if a > bu(d as u64) {
                        ts.push(&a - d);
                    }
                }
            }
            ts.sort();
            ts.dedup();
            for x in ts {
                items.push(Cfg { t: x, moduli: l.clone(), ..base.clone() });
            }
        }
        su.par(&items, |c| one(su, c));
    });
    r.suite("sizes", "every size 0..=70 alone; every requested count around the number of available primes for small sizes and several degrees; pairs and mixed lists; both, neither and empty specifications", |su| {
        let mut items = vec![];
        for s in (0..=70).chain([128, 1 << 20, usize::MAX]) {
            items.push(Cfg { moduli: vec![], sizes: vec![s], ..base.clone() });
            items.push(Cfg { moduli: vec![], sizes: vec![30, s], ..base.clone() });
            items.push(Cfg { moduli: vec![], sizes: vec![s, s], ..base.clone() });
        }
        for d in [8usize, 16, 64, 256, 1024, 4096] {
            for s in 10..=if t { 18u32 } else { 15 } {
                let av = ntt_primes(s, 2 * d as u64, 100).len();
                for k in [1, av.saturating_sub(1), av, av + 1, av + 2] {
                    if (1..=if t { 60 } else { 24 }).contains(&k) {
                        items.push(Cfg { degree: d, t: bu(2), moduli: vec![], sizes: vec![s as usize; k], ..base.clone() });
                        // interleaved with another size
                        let mut v = vec![];
                        for _ in 0..k {
                            v.push(s as usize);
                            if v.len() < 8 {
                                v.push(40);
                            }
                        }
                        items.push(Cfg { degree: d, t: bu(2), moduli: vec![], sizes: v, ..base.clone() });
                    }
                }
            }
        }
        for v in [vec![62; 8], vec![10, 62, 10, 62], vec![61, 62, 60], vec![40, 41, 40, 41, 40]] {
            items.push(Cfg { moduli: vec![], sizes: v, ..base.clone() });
        }
        items.push(Cfg { moduli: vec![], sizes: vec![], ..base.clone() });
        items.push(Cfg { sizes: vec![30], ..base.clone() });
        items.push(Cfg { sizes: vec![0], ..base.clone() });
        items.push(Cfg { sizes: vec![99], ..base.clone() });
        su.par(&items, |c| one(su, c));
    });
    r.suite("setter-histories", "every sequence of up to four setter calls with two values each, in every order: the last value of each setter decides", |su| {
        #[derive(Clone, Copy, Debug)]
        enum S {
            Deg(usize),
            T(u64),
            Big(u64),
            Var(usize),
            Mod(usize),
            Size(usize),
        }
        let al = [S::Deg(8), S::Deg(9), S::Deg(16), S::T(5), S::T(0), S::Big(7), S::Var(2), S::Var(0), S::Mod(0), S::Mod(1), S::Mod(2), S::Size(0), S::Size(1)];
        let m1 = ntt_primes(20, 64, 2);
        let lists = [vec![], m1.clone(), vec![m1[0]]];
        let sizes = [vec![], vec![20usize, 20]];
        for n in 0..=if t { 5 } else { 4 } {
            let items = all_tuples(al.len(), n);
            su.par(&items, |v| {
                let mut b = BfvParametersBuilder::new();
                let mut c = Cfg { degree: 0, t: bu(0), var: 10, moduli: vec![], sizes: vec![] };
                for &i in v {
                    match al[i] {
                        S::Deg(d) => { b.set_degree(d); c.degree = d }
                        S::T(x) => { b.set_plaintext_modulus(x); c.t = bu(x) }
                        S::Big(x) => { b.set_plaintext_modulus_biguint(bu(x)); c.t = bu(x) }
                        S::Var(x) => { b.set_variance(x); c.var = x }
                        S::Mod(k) => { b.set_moduli(&lists[k]); c.moduli = lists[k].clone() }
                        S::Size(k) => { b.set_moduli_sizes(&sizes[k]); c.sizes = sizes[k].clone() }
                    }
                }
                su.case(&format!("{:?}", v.iter().map(|i| al[*i]).collect::<Vec<_>>()), || {
                    let want = accept(&c);
                    su.outcome(h64(&(want, &c.moduli, &c.sizes, &c.t, c.degree, c.var)));
                    match (b.build(), want) {
                        (Ok(p), true) => reports(&c, &p).map(|_| 1),
                        (Err(_), false) => Ok(1),
                        (Ok(_), false) => Err("accepted".into()),
                        (Err(e), true) => Err(format!("rejected: {e}")),
                    }
                });
            });
        }
    });
    r.suite("defaults", "default parameters for every plaintext size 0..=70 and extreme sizes", |su| {
        let bits: Vec<usize> = (0..=70).chain([127, 128, 1 << 20, usize::MAX]).collect();
        // the degrees and moduli on offer do not depend on the plaintext size
        let all: Vec<Arc<BfvParameters>> = BfvParameters::default_parameters_128(20).unwrap().collect();
        if all.iter().map(|p| p.degree()).collect::<Vec<_>>() != [1024, 2048, 4096, 8192, 16384] {
            su.fail("degrees", &format!("{all:?}"));
        }
        su.par(&bits, |&b| {
            su.case(&format!("{b} bits"), || {
                let mut want = vec![];
                if (10..=62).contains(&b) {
                    for p in &all {
                        if let Some(&tt) = ntt_primes(b as u32, 2 * p.degree() as u64, 1).first() {
                            if accept(&Cfg { degree: p.degree(), t: bu(tt), var: 10, moduli: p.moduli().to_vec(), sizes: vec![] }) {
                                want.push((p.degree(), tt, p.moduli().to_vec()));
                            }
                        }
                    }
                }
                let Ok(ps) = BfvParameters::default_parameters_128(b) else {
                    if !want.is_empty() {
                        return Err(format!("no default parameters, {} expected", want.len()));
                    }
                    su.outcome(0);
                    return Ok(1);
                };
                let ps: Vec<Arc<BfvParameters>> = ps.collect();
                if ps.is_empty() {
                    return Err("empty list reported as success".into());
                }
                if ps.iter().map(|p| (p.degree(), p.plaintext(), p.moduli().to_vec())).collect::<Vec<_>>() != want {
                    return Err(format!("{ps:?}, expected {want:?}"));
                }
                let mut last = 0;
                for p in &ps {
                    let tt = p.plaintext();
                    su.outcome(h64(&(p.degree(), tt)));
                    if p.degree() <= last {
                        return Err("degrees are not increasing".into());
                    }
                    last = p.degree();
                    if 64 - tt.leading_zeros() as usize != b || !is_prime64(tt) || tt % (2 * p.degree() as u64) != 1 {
                        return Err(format!("plaintext modulus {tt} is not a {b}-bit SIMD prime for degree {}", p.degree()));
                    }
                    let c = Cfg { degree: p.degree(), t: bu(tt), var: 10, moduli: p.moduli().to_vec(), sizes: vec![] };
                    if !accept(&c) {
                        return Err("unsound default parameters".into());
                    }
                    reports(&c, p)?;
                    // 128-bit security per the standard's table for the ternary/normal secrets it publishes
                    let lim = match p.degree() { 1024 => 27, 2048 => 54, 4096 => 109, 8192 => 218, 16384 => 438, 32768 => 881, _ => 0 };
                    if prod(p.moduli()).bits() > lim {
                        return Err(format!("{} bits of modulus for degree {}", prod(p.moduli()).bits(), p.degree()));
                    }
                }
                Ok(ps.len() as u64)
            });
        });
    });
}

/// The parameter shapes used for B02.
fn shapes() -> Vec<Arc<BfvParameters>> {
    let mut v: Vec<Arc<BfvParameters>> = vec![];
    for p in [p0(), p1(), p2(), p3(), p4(), p5(), p6(), p7(), p8(), p9()] {
        v.push(p.par);
    }
    v.push(mk_par(8, &((BigUint::one() << 64usize) + 3u32), &Mods::Sizes(&[62, 62]), 32).unwrap());
    v.push(mk_par(8, &bu((1 << 62) - 1), &Mods::Sizes(&[62, 62]), 1).unwrap());
    v.push(mk_par(32, &bu(193), &Mods::Sizes(&[62, 20, 10, 30, 40, 50]), 7).unwrap());
    v.push(mk_par(8, &bu(2), &Mods::List(&[17, 97, 113]), 16).unwrap());
    v
}

fn alike(a: &Arc<BfvParameters>, b: &Arc<BfvParameters>) -> Result<(), String> {
    if a != b {
        return Err("not equal".into());
    }
    if a.degree() != b.degree() || a.moduli() != b.moduli() || a.plaintext_big() != b.plaintext_big() || a.max_level() != b.max_level() {
        return Err("accessors differ".into());
    }
    if a.to_bytes() != b.to_bytes() {
        return Err("re-encoding differs".into());
    }
    // behaviour: encoding, encryption read across, decryption, multiplication
    let n = a.degree();
    let sk_a = fhe::bfv::SecretKey::random(a, &mut rng(1));
    let sk_b = sk_from(b, &sk_coeffs(&sk_a));
    for l in 0..=a.max_level() {
        for enc in [Encoding::poly_at_level(l), Encoding::simd_at_level(l)] {
            let v: Vec<BigUint> = (0..n).map(|i| (bu(i as u64) * 7u32 + 3u32) % a.plaintext_big()).collect();
            let (x, y) = (Plaintext::try_encode(v.as_slice(), enc.clone(), a), Plaintext::try_encode(v.as_slice(), enc.clone(), b));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    let f = |p: &Plaintext, par: &Arc<BfvParameters>| -> Result<Vec<Vec<u64>>, String> {
                        use fhe_math::rq::traits::TryConvertFrom;
                        let q = fhe_math::rq::Poly::<fhe_math::rq::PowerBasis>::try_convert_from(p, par.context_at_level(l).unwrap(), false).map_err(|e| e.to_string())?;
                        Ok(crate::a_poly::coeffs(&q))
                    };
                    if f(&x, a)? != f(&y, b)? {
                        return Err(format!("encodings differ at level {l}"));
                    }
                    let ct: Ciphertext = {
                        use fhe_traits::FheEncrypter;
                        sk_a.try_encrypt(&x, &mut rng(3)).map_err(|e: fhe::Error| e.to_string())?
                    };
                    let cb = Ciphertext::from_bytes(&ct.to_bytes(), b).map_err(|e| e.to_string())?;
                    let da = sk_a.try_decrypt(&ct).map_err(|e| e.to_string())?;
                    let db = sk_b.try_decrypt(&cb).map_err(|e| e.to_string())?;
                    let (va, vb) = (Vec::<BigUint>::try_decode(&da, enc.clone()).map_err(|e| e.to_string())?, Vec::<BigUint>::try_decode(&db, enc.clone()).map_err(|e| e.to_string())?);
                    if va != vb {
                        return Err(format!("decryptions differ at level {l}"));
                    }
                    if ct_rows(&(&ct * &ct)) != ct_rows(&(&cb * &cb)) {
                        return Err(format!("products differ at level {l}"));
                    }
                }
                (Err(_), Err(_)) => {}
                _ => return Err(format!("encoding availability differs at level {l}")),
            }
        }
    }
    Ok(())
}

pub fn b02(r: &Rep) {
    let t = r.thorough;
    let sh = shapes();
    r.suite("round-trip", "parameter shapes (small and big plaintext moduli, one to six moduli, SIMD or not, extreme variances, degrees up to 65536): equality and identical behaviour after a round trip", |su| {
        su.par(&sh, |p| {
            su.case(&format!("{p:?}"), || {
                su.outcome(h64(&p.to_bytes()));
                let q = Arc::new(BfvParameters::try_deserialize(&p.to_bytes()).map_err(|e| format!("own encoding rejected: {e}"))?);
                alike(p, &q)?;
                let pr = proto::Parameters::decode(p.to_bytes().as_slice()).unwrap();
                // variance travels
                if pr.variance == 0 {
                    return Err("variance lost".into());
                }
                Ok(1)
            });
        });
        // the largest degrees
        let items: Vec<(usize, u64)> = [65536usize, 32768, 16384, 8192, 1024].into_iter().flat_map(|n| [(n, 786433), (n, 2), (n, (1 << 40) + 15)]).collect();
        su.par(&items, |&(n, t)| {
            su.case(&format!("degree {n} t {t}"), || {
                let p = mk_par(n, &bu(t), &Mods::Sizes(&[62, 41]), 10).map_err(|e| e.to_string())?;
                let q = Arc::new(BfvParameters::try_deserialize(&p.to_bytes()).map_err(|e| format!("own encoding rejected: {e}"))?);
                su.outcome(h64(&(n, t)));
                alike(&p, &q).map(|_| 1)
            });
        });
        // every variance and every kind of plaintext modulus
        let items: Vec<usize> = (1..=32).collect();
        su.par(&items, |&v| {
            for (t, sizes) in [(bu(2), vec![20usize]), (bu((1 << 62) - 1), vec![62, 62]), ((BigUint::one() << 64usize) + 1u32, vec![62, 62]), ((BigUint::one() << 100usize) + 1u32, vec![62, 62])] {
                su.case(&format!("variance {v} t {t}"), || {
                    let p = mk_par(8, &t, &Mods::Sizes(&sizes), v).map_err(|e| e.to_string())?;
                    let q = Arc::new(BfvParameters::try_deserialize(&p.to_bytes()).map_err(|e| format!("own encoding rejected: {e}"))?);
                    alike(&p, &q)?;
                    // sampled errors depend on the variance
                    let (a, b) = (fhe::bfv::SecretKey::random(&p, &mut rng(v as u64)), fhe::bfv::SecretKey::random(&q, &mut rng(v as u64)));
                    if sk_coeffs(&a) != sk_coeffs(&b) {
                        return Err("secret keys sampled from the same stream differ".into());
                    }
                    Ok(1)
                });
            }
        });
    });
    r.suite("distinct", "all pairs of distinct shapes and single-field variations compare unequal", |su| {
        let mut v = sh.clone();
        let q = ntt_primes(30, 64, 3);
        for (n, t, m, var) in [(8usize, 5u64, vec![q[0], q[1]], 2usize), (16, 5, vec![q[0], q[1]], 2), (8, 7, vec![q[0], q[1]], 2), (8, 5, vec![q[1], q[0]], 2), (8, 5, vec![q[0]], 2), (8, 5, vec![q[0], q[1], q[2]], 2), (8, 5, vec![q[0], q[1]], 3)] {
            v.push(mk_par(n, &bu(t), &Mods::List(&m), var).unwrap());
        }
        for i in 0..v.len() {
            for j in 0..v.len() {
                su.case(&format!("{i} {j}"), || {
                    if (v[i] == v[j]) != (i == j) {
                        return Err(format!("{:?} == {:?} is {}", v[i], v[j], v[i] == v[j]));
                    }
                    if (v[i].to_bytes() == v[j].to_bytes()) != (i == j) {
                        return Err("encodings of distinct parameters coincide".into());
                    }
                    Ok(1)
                });
            }
        }
    });
    r.suite("levels", "every level and context query on every shape, including out-of-range levels and foreign contexts", |su| {
        su.par(&sh, |p| {
            su.case(&format!("{p:?}"), || {
                let l = p.moduli().len();
                if p.max_level() != l - 1 || p.context_levels().len() != l {
                    return Err("number of levels".into());
                }
                for i in 0..l {
                    let c = p.context_at_level(i).map_err(|e| e.to_string())?;
                    let cl = p.context_level_at(i).map_err(|e| e.to_string())?;
                    if c.moduli() != &p.moduli()[..l - i] {
                        return Err(format!("level {i} has moduli {:?}", c.moduli()));
                    }
                    if cl.level() != i || &cl.poly_context != c || cl.max_level() != l - 1 || cl.can_switch_down() != (i + 1 < l) || &p.context_levels()[i] != cl {
                        return Err(format!("level record {i} inconsistent: level {} max {} down {}", cl.level(), cl.max_level(), cl.can_switch_down()));
                    }
                    if p.level_of_context(c).map_err(|e| e.to_string())? != i {
                        return Err(format!("level_of_context(level {i})"));
                    }
                    let same = Context::new_arc(&p.moduli()[..l - i], p.degree()).map_err(|e| e.to_string())?;
                    if p.level_of_context(&same).map_err(|e| format!("an equal context is unknown: {e}"))? != i {
                        return Err(format!("level_of_context(equal context {i})"));
                    }
                    if i + 1 < l {
                        let nx = p.context_at_level(i + 1).unwrap();
                        if c.niterations_to(nx).map_err(|e| e.to_string())? != 1 {
                            return Err("levels are not adjacent".into());
                        }
                    }
                }
                for i in [l, l + 1, 2 * l, usize::MAX, usize::MAX - 1] {
                    if p.context_at_level(i).is_ok() || p.context_level_at(i).is_ok() {
                        return Err(format!("level {i} of {l} exists"));
                    }
                }
                // foreign contexts: other degree, other moduli, permuted, longer, suffixes
                let mut foreign = vec![];
                let m = p.moduli();
                let extra = ntt_primes(33, 2 * p.degree() as u64 * 4, 8);
                for k in 1..=l {
                    let mut v = m[..k].to_vec();
                    v[k - 1] = extra[k];
                    foreign.push(Context::new_arc(&v, p.degree()));
                    let mut v = m[..k].to_vec();
                    v[0] = extra[k];
                    foreign.push(Context::new_arc(&v, p.degree()));
                    if k > 1 {
                        let mut v = m[..k].to_vec();
                        v.swap(0, k - 1);
                        foreign.push(Context::new_arc(&v, p.degree()));
                        foreign.push(Context::new_arc(&m[l - k + 1..], p.degree()));
                    }
                    foreign.push(Context::new_arc(&m[..k], p.degree() / 2));
                }
                let mut v = m.to_vec();
                v.push(extra[0]);
                foreign.push(Context::new_arc(&v, p.degree()));
                v.push(extra[1]);
                foreign.push(Context::new_arc(&v, p.degree()));
                let mut n = 0;
                for c in foreign.into_iter().flatten() {
                    n += 1;
                    if let Ok(x) = p.level_of_context(&c) {
                        return Err(format!("the foreign context {:?} has level {x} in {p:?}", c.moduli()));
                    }
                }
                su.outcome(h64(&(l, n)));
                Ok(n)
            });
        });
    });
    let good = |b: &[u8]| -> Result<u64, String> {
        match BfvParameters::try_deserialize(b) {
            Err(_) => Ok(0),
            Ok(p) => {
                let c = Cfg {
                    degree: p.degree(),
                    t: p.plaintext_big().clone(),
                    var: proto::Parameters::decode(p.to_bytes().as_slice()).unwrap().variance as usize,
                    moduli: p.moduli().to_vec(),
                    sizes: vec![],
                };
                if !accept(&c) {
                    return Err(format!("unsound parameters accepted: {c:?}"));
                }
                let q = BfvParameters::try_deserialize(&p.to_bytes()).map_err(|e| e.to_string())?;
                if p != q {
                    return Err("re-encoding differs".into());
                }
                Ok(1)
            }
        }
    };
    r.suite("malformed", "every truncation, every single-byte change (corner or all values) and every field value of a corner set", |su| {
        for p in sh.iter() {
            let b = p.to_bytes();
            for k in 0..b.len() {
                su.case(&format!("{p:?} truncated to {k}"), || good(&b[..k]).map(|x| x + 1));
            }
            if p.degree() > 16 && !t {
                continue;
            }
            let items: Vec<usize> = (0..b.len()).collect();
            su.par(&items, |&k| {
                for x in 0..=255u8 {
                    if !t && ![0, 1, 2, 8, 15, 16, 18, 26, 32, 34, 127, 128, 255].contains(&x) && x != b[k] ^ 1 && x != b[k].wrapping_add(1) {
                        continue;
                    }
                    let mut c = b.clone();
                    c[k] = x;
                    su.case(&format!("{p:?} byte {k} = {x}"), || { let z = good(&c)?; su.outcome(h64(&(z, k))); Ok(z + 1) });
                }
            });
        }
        use proto::parameters::PlaintextModulus as PM;
        let q = ntt_primes(30, 64, 3);
        let pms = [None, Some(PM::Plaintext(0)), Some(PM::Plaintext(1)), Some(PM::Plaintext(5)), Some(PM::Plaintext(q[0])), Some(PM::Plaintext(1 << 62)), Some(PM::Plaintext(u64::MAX)), Some(PM::PlaintextBig(vec![])), Some(PM::PlaintextBig(vec![5])), Some(PM::PlaintextBig(vec![5, 0, 0])), Some(PM::PlaintextBig(vec![0; 9])), Some(PM::PlaintextBig(vec![255; 9])), Some(PM::PlaintextBig(vec![255; 100])), Some(PM::PlaintextBig((1u64 << 62).to_le_bytes().to_vec()))];
        let mods: Vec<Vec<u64>> = vec![vec![], vec![0], vec![1], vec![q[0]], vec![q[0], q[0]], q.clone(), vec![q[0], 15], vec![u64::MAX], vec![q[0]; 40]];
        let mut items = vec![];
        for d in [0u32, 1, 7, 8, 16, 32, 64, 1 << 16, 1 << 17, 1 << 31, u32::MAX] {
            for v in [0u32, 1, 10, 32, 33, u32::MAX] {
                for m in &mods {
                    for pm in &pms {
                        items.push(proto::Parameters { degree: d, moduli: m.clone(), variance: v, plaintext_modulus: pm.clone() });
                    }
                }
            }
        }
        su.par(&items, |p| {
            su.case(&format!("{p:?}"), || {
                let b = p.encode_to_vec();
                let want = p.plaintext_modulus.as_ref().map(|x| match x { PM::Plaintext(x) => bu(*x), PM::PlaintextBig(b) => BigUint::from_bytes_le(b) });
                let acc = want.is_some_and(|t| accept(&Cfg { degree: p.degree as usize, t, var: p.variance as usize, moduli: p.moduli.clone(), sizes: vec![] }));
                let z = good(&b)?;
                su.outcome(h64(&(acc, p.degree)));
                if (z == 1) != acc {
                    return Err(format!("accepted: {z}, sound: {acc}"));
                }
                Ok(1)
            });
        });
    });
    let _ = (Vec::<u64>::new(), ToPrimitive::to_u64(&bu(1)));
}
