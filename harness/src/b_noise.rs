//! B16: the randomness of encryptions, keys and shares, read off exactly.
use crate::a_poly::*;
use crate::a_util::BitRng;
use crate::b_core::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{Ciphertext, EvaluationKeyBuilder, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::mbfv::round::R1Aggregated;
use fhe::mbfv::{Aggregate, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare};
use fhe::proto::bfv as proto;
use fhe_math::rq::{Ntt, NttShoup, Poly};
use fhe_traits::{DeserializeParametrized, DeserializeWithContext, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::ToPrimitive;
use prost::Message;
use rand::{CryptoRng, Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::collections::HashMap;
use std::sync::Arc;

type E = Vec<i64>;

fn small(v: &[BigUint], q: &BigUint, what: &str) -> Result<E, String> {
    v.iter().map(|x| centre(x, q).to_i64().filter(|y| y.abs() < 1 << 40).ok_or_else(|| format!("{what} is not small"))).collect()
}
/// Error of an encryption of m.
fn error(ps: &Ps, ct: &Ciphertext, m: &Msg, level: usize, s: &[i64]) -> Result<E, String> {
    let q = ps.qq(level);
    let d: Vec<BigUint> = phase_with(ps, ct, s).iter().zip(ps.scaled(m, level)).map(|(x, y)| (x + &q - y) % &q).collect();
    small(&d, &q, "the error")
}
/// A public key of constants, from whose encryptions all three random polynomials can be read.
const K1: u64 = 3;
fn probe(ps: &Ps, level: usize) -> Option<(PublicKey, u64)> {
    let big = 16 * ps.b + 1;
    if ps.qq(level) < bu(K1 * big * ps.b * 8) || ps.q.iter().any(|q| K1 * big >= *q) && ps.qq(level) < bu(1 << 40) {
        return None;
    }
    let drop = ps.q[ps.q.len() - level..].iter().fold(bu(1), |a, q| a * *q);
    let ctx = ps.par.context_at_level(0).unwrap();
    let mk = |c: u64| {
        let mut v = vec![bu(0); ps.n];
        v[0] = bu(c) * &drop;
        pb(ctx, &ps.to_rows(&v, 0), true).into_ntt().to_bytes()
    };
    let c = proto::Ciphertext { c: vec![mk(big), mk(K1 * big)], seed: vec![], level: 0 };
    let b = proto::PublicKey { c: Some(c) }.encode_to_vec();
    Some((PublicKey::from_bytes(&b, &ps.par).unwrap(), big))
}
/// (u, e1, e2) from two polynomials big u + e1, K1 big u + e2.
fn split(ps: &Ps, level: usize, x: &[BigUint], y: &[BigUint], big: u64) -> Result<[E; 3], String> {
    let q = ps.qq(level);
    let (x, y) = (small(x, &q, "first part")?, small(y, &q, "second part")?);
    let (b, k) = (big as i64, (K1 * big) as i64);
    let near = |v: i64, m: i64| (2 * v + m).div_euclid(2 * m);
    let u: E = x.iter().map(|v| near(*v, b)).collect();
    let u2: E = y.iter().map(|v| near(*v, k)).collect();
    if u != u2 {
        return Err("the two parts do not use one and the same masking polynomial".into());
    }
    Ok([u.clone(), x.iter().zip(&u).map(|(v, w)| v - b * w).collect(), y.iter().zip(&u).map(|(v, w)| v - k * w).collect()])
}
fn power_big(ps: &Ps, p: &Poly<Ntt>, level: usize) -> Vec<BigUint> {
    let r = coeffs(&p.clone().into_power_basis());
    let q = ps.ql(level);
    (0..ps.n).map(|j| crt(&r.iter().map(|x| x[j]).collect::<Vec<_>>(), q)).collect()
}
fn pk_parts(ps: &Ps, ct: &Ciphertext, m: &Msg, level: usize, big: u64) -> Result<[E; 3], String> {
    let q = ps.qq(level);
    let x: Vec<BigUint> = power_big(ps, &ct[0], level).iter().zip(ps.scaled(m, level)).map(|(x, y)| (x + &q - y) % &q).collect();
    split(ps, level, &x, &power_big(ps, &ct[1], level), big)
}

/// Everything sampled so far: bounds, pairwise distinctness, spread.
struct Pool {
    b: i64,
    var: f64,
    seen: HashMap<E, String>,
    masks: HashMap<u128, String>,
    seeds: HashMap<String, Vec<Vec<u8>>>,
    /// by kind: per-coefficient value sets, count, sum, sum of squares
    kinds: HashMap<String, (Vec<std::collections::BTreeSet<i64>>, f64, f64, f64)>,
}
impl Pool {
    fn new(ps: &Ps) -> Pool {
        Pool { b: ps.b as i64, var: ps.var as f64, seen: HashMap::new(), masks: HashMap::new(), seeds: HashMap::new(), kinds: HashMap::new() }
    }
    fn add(&mut self, kind: &str, what: &str, e: E) -> Result<(), String> {
        if let Some(x) = e.iter().find(|x| x.abs() > self.b) {
            return Err(format!("{kind} {what}: coefficient {x} outside [-{0}, {0}]", self.b));
        }
        let k = self.kinds.entry(kind.into()).or_insert_with(|| (vec![Default::default(); e.len()], 0., 0., 0.));
        for (s, x) in k.0.iter_mut().zip(&e) {
            s.insert(*x);
            k.1 += 1.;
            k.2 += *x as f64;
            k.3 += (*x * *x) as f64;
        }
        let neg: E = e.iter().map(|x| -x).collect();
        if let Some(o) = self.seen.get(&e).or_else(|| self.seen.get(&neg)) {
            return Err(format!("{kind} {what} uses the same polynomial as {o}"));
        }
        self.seen.insert(e, format!("{kind} {what}"));
        Ok(())
    }
    fn mask(&mut self, what: String, rows: &[Vec<u64>]) -> Result<(), String> {
        for r in rows {
            let mut v = r.clone();
            v.sort();
            v.dedup();
            if v.len() * 2 < r.len() {
                return Err(format!("the random component of {what} takes only {} values", v.len()));
            }
        }
        for (i, r) in rows.iter().enumerate() {
            if let Some(o) = self.masks.insert(h128(r), what.clone()) {
                return Err(format!("{what} has the random residues {i} of {o}"));
            }
            for (k, o) in rows[..i].iter().enumerate() {
                if 2 * r.iter().zip(o).filter(|(a, b)| a == b).count() > r.len() {
                    return Err(format!("the random component of {what} has the same residues for moduli {k} and {i}"));
                }
            }
        }
        Ok(())
    }
    /// Published seeds: with enough of them, every bit takes both values.
    fn seed(&mut self, kind: &str, seed: &[u8]) {
        if !seed.is_empty() {
            self.seeds.entry(kind.into()).or_default().push(seed.to_vec());
        }
    }
    fn end(&self) -> Result<u64, String> {
        let mut n = 0;
        for (k, v) in self.seeds.iter().filter(|(_, v)| v.len() >= 64) {
            for i in 0..v.iter().map(|s| s.len()).min().unwrap() {
                let moved = v.iter().fold(0, |m, s| m | (s[i] ^ v[0][i]));
                if moved != 255 {
                    return Err(format!("{k}: byte {i} of {} published seeds varies only in the bits {moved:#x}", v.len()));
                }
            }
        }
        for (k, (sets, c, s, ss)) in &self.kinds {
            if *c < 600. {
                continue;
            }
            if let Some(j) = sets.iter().position(|s| s.len() < 3) {
                return Err(format!("{k}: coefficient {j} takes only the values {:?}", sets[j]));
            }
            let mean = s / c;
            let var = ss / c - mean * mean;
            // the variance of a centred binomial sum of 4v fair bits is v; the estimate over at least 600 values is
            // within half of it by more than eight standard deviations
            if var < self.var / 2. || var > self.var * 1.5 || mean.abs() > self.var.sqrt() * 0.4 {
                return Err(format!("{k}: variance {var:.2} and mean {mean:.2} over {c} coefficients, configured variance {}", self.var));
            }
            n += *c as u64;
        }
        Ok(n)
    }
}
fn seeded(par: &Arc<fhe::bfv::BfvParameters>, level: usize, seed: &[u8]) -> Option<Vec<Vec<u64>>> {
    let s: [u8; 32] = seed.try_into().ok()?;
    Some(coeffs(&Poly::<Ntt>::random_from_seed(par.context_at_level(level).ok()?, s)))
}
fn enc<R: Rng + CryptoRng>(sk: &SecretKey, pt: &Plaintext, r: &mut R) -> Result<Ciphertext, String> {
    <SecretKey as FheEncrypter<Plaintext, Ciphertext>>::try_encrypt(sk, pt, r).map_err(|e| format!("encryption: {e}"))
}
/// (errors, masks) of the components of a key-switching key from the given polynomial (modulo Q at the ciphertext level).
fn ksk_errors(ps: &Ps, k: &proto::KeySwitchingKey, from: &[BigInt], what: &str) -> Result<Vec<(E, Vec<Vec<u64>>)>, String> {
    let (cl, kl) = (k.ciphertext_level as usize, k.ksk_level as usize);
    let ctx = ps.par.context_at_level(kl).map_err(|e| e.to_string())?;
    let (qc, qk) = (ps.qq(cl), ps.qq(kl));
    let ql = ps.ql(kl);
    let lift = &qk / &qc;
    let c1: Vec<Vec<Vec<u64>>> = if k.seed.is_empty() {
        k.c1.iter().map(|b| Poly::<NttShoup>::from_bytes(b, ctx).map(|p| coeffs(&p.into_ntt().into_power_basis()))).collect::<Result<_, _>>().map_err(|e| e.to_string())?
    } else {
        let seed: [u8; 32] = k.seed.as_slice().try_into().map_err(|_| "seed length")?;
        let mut r = ChaCha8Rng::from_seed(seed);
        (0..k.c0.len())
            .map(|_| {
                let mut s = [0u8; 32];
                r.fill_bytes(&mut s);
                coeffs(&Poly::<Ntt>::random_from_seed(ctx, s).into_power_basis())
            })
            .collect()
    };
    if c1.len() != k.c0.len() {
        return Err(format!("{what}: {} and {} components", k.c0.len(), c1.len()));
    }
    let mut out = vec![];
    for (i, b) in k.c0.iter().enumerate() {
        let c0 = coeffs(&Poly::<NttShoup>::from_bytes(b, ctx).map_err(|e| e.to_string())?.into_ntt().into_power_basis());
        let g: BigUint = if k.log_base > 0 {
            bu(1) << (i * k.log_base as usize)
        } else {
            let q = ps.ql(cl)[i];
            let c = &qc / q;
            let inv = inv_naive((&c % q).to_u64().unwrap(), q).ok_or("no inverse")?;
            c * inv
        };
        let g = g * &lift;
        let rows: Vec<Vec<u64>> = ql
            .iter()
            .enumerate()
            .map(|(r, &m)| {
                let s: Vec<u64> = ps.s.iter().map(|x| x.rem_euclid(m as i64) as u64).collect();
                let cs = negmul(&c1[i][r], &s, m);
                (0..ps.n)
                    .map(|j| {
                        let f = residues(&(bi(&g) * &from[j]), &[m])[0];
                        ((c0[r][j] as u128 + cs[j] as u128 + (m - f) as u128) % m as u128) as u64
                    })
                    .collect()
            })
            .collect();
        let v: Vec<BigUint> = (0..ps.n).map(|j| crt(&rows.iter().map(|r| r[j]).collect::<Vec<_>>(), ql)).collect();
        out.push((small(&v, &qk, &format!("{what}: error of component {i}"))?, c1[i].clone()));
    }
    Ok(out)
}
fn s_poly(ps: &Ps) -> Vec<BigInt> {
    ps.s.iter().map(|x| BigInt::from(*x)).collect()
}
fn subst(v: &[BigInt], e: usize) -> Vec<BigInt> {
    let n = v.len();
    let mut o = vec![BigInt::from(0); n];
    for j in 0..n {
        let k = j * e % (2 * n);
        if k >= n { o[k - n] -= &v[j] } else { o[k] += &v[j] }
    }
    o
}

/// Large degrees: every block of 32 coefficients of every sampled polynomial is an error of its own.
fn large(r: &Rep) {
    let items: Vec<(usize, usize)> = [65536usize, 16384, 4096, 1024].into_iter().flat_map(|n| [(n, 10), (n, 17), (n, 1)]).filter(|(n, v)| *n < 20000 || *v != 1).collect();
    r.suite("large-degrees", &format!("(degree, variance) in {items:?} x levels of two moduli: errors of secret keys, public keys, encryptions under either, multiparty shares, relinearisation, Galois and RGSW components read off exactly: within 2v, every two blocks of 32 coefficients distinct (also up to sign), configured variance"), |su| {
        su.par(&items, |&(n, v)| {
            let ps = &Ps::new(&format!("n{n}-var{v}"), n, bu(97), Mods::Sizes(&[50, 55]), v, Secret::Sparse);
            let pool = std::sync::Mutex::new(Pool::new(ps));
            let put = |kind: &str, what: &str, e: E| -> Result<u64, String> {
                // with the smallest variance a block of 32 has little entropy: take longer ones
                for (i, b) in e.chunks(if v == 1 { 64 } else { 32 }).enumerate() {
                    pool.lock().unwrap().add(kind, &format!("{what} block {i}"), b.to_vec())?;
                }
                Ok(1)
            };
            let es = |e: fhe::Error| e.to_string();
            let of_pk = |pk: &PublicKey| -> Result<Ciphertext, String> {
                let w = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?.c.ok_or("no ciphertext")?;
                Ciphertext::from_bytes(&w.encode_to_vec(), &ps.par).map_err(es)
            };
            let mut m = ps.zero_msg();
            m[n / 2 + 1] = bu(96);
            let m = &m;
            su.case(&format!("{} keys of level 0", ps.name), || {
                let mut k = put("secret key", "1", sk_coeffs(&SecretKey::random(&ps.par, &mut rng(1))))?;
                let ct = of_pk(&PublicKey::new(&ps.sk, &mut rng(2)))?;
                pool.lock().unwrap().mask("public key".into(), &coeffs(&ct[1]))?;
                k += put("public key", "1", error(ps, &ct, &ps.zero_msg(), 0, &ps.s)?)?;
                let crp = CommonRandomPoly::new(&ps.par, &mut rng(3)).map_err(es)?;
                let sh = PublicKeyShare::new(&ps.sk, crp, &mut rng(4)).map_err(es)?;
                k += put("public-key share", "1", error(ps, &of_pk(&PublicKey::from_shares([sh]).map_err(es)?)?, &ps.zero_msg(), 0, &ps.s)?)?;
                Ok(k)
            });
            for l in 0..ps.levels() {
                su.case(&format!("{} encryptions at level {l}", ps.name), || {
                    let (pt, q) = (ps.plaintext(m, l), ps.qq(l));
                    let mut k = 0;
                    let ct = enc(&ps.sk, &pt, &mut rng(10 + l as u64))?;
                    k += put("encryption", &format!("level {l}"), error(ps, &ct, m, l, &ps.s)?)?;
                    pool.lock().unwrap().mask(format!("encryption level {l}"), &coeffs(&ct[1]))?;
                    if let Some((pk, big)) = probe(ps, l) {
                        let c: Ciphertext = pk.try_encrypt(&pt, &mut rng(20 + l as u64)).map_err(es)?;
                        for (w, e) in ["mask", "first error", "second error"].iter().zip(pk_parts(ps, &c, m, l, big)?) {
                            k += put(w, &format!("level {l}"), e)?;
                        }
                        let s = PublicKeySwitchShare::new(&ps.sk, &pk, &ct, &mut rng(30 + l as u64)).map_err(es)?;
                        let d = Ciphertext::from_shares([s]).map_err(es)?;
                        let z: Vec<BigUint> = power_big(ps, &d[0], l).iter().zip(ps.phase(&ct)).map(|(a, b)| (a + &q - b) % &q).collect();
                        for (w, e) in ["switching mask", "switching first error", "switching second error"].iter().zip(split(ps, l, &z, &power_big(ps, &d[1], l), big)?) {
                            k += put(w, &format!("level {l}"), e)?;
                        }
                    }
                    let a = Arc::new(ct);
                    let zero = sk_from(&ps.par, &vec![0; n]);
                    let s = SecretKeySwitchShare::new(&ps.sk, &zero, a.clone(), &mut rng(40 + l as u64)).map_err(es)?;
                    let d = Ciphertext::from_shares([s]).map_err(es)?;
                    let z: Vec<BigUint> = power_big(ps, &d[0], l).iter().zip(ps.phase(&a)).map(|(a, b)| (a + &q - b) % &q).collect();
                    k += put("switching share", &format!("level {l}"), small(&z, &q, "the error of the switching share")?)?;
                    Ok(k)
                });
                for kl in 0..=l {
                    su.case(&format!("{} key-switching keys {l}/{kl}", ps.name), || {
                        let mut k = 0;
                        let s = s_poly(ps);
                        let mut comps = |what: &str, w: &proto::KeySwitchingKey, f: &[BigInt]| -> Result<(), String> {
                            for (i, (e, c1)) in ksk_errors(ps, w, f, what)?.into_iter().enumerate() {
                                k += put("key component", &format!("{what} {l}/{kl}[{i}]"), e)?;
                                pool.lock().unwrap().mask(format!("{what} {l}/{kl}[{i}]"), &c1)?;
                            }
                            Ok(())
                        };
                        if ps.ql(kl).len() > 1 {
                            let rk = RelinearizationKey::new_leveled(&ps.sk, l, kl, &mut rng(50 + (2 * l + kl) as u64)).map_err(es)?;
                            let w = proto::RelinearizationKey::decode(rk.to_bytes().as_slice()).map_err(|e| e.to_string())?.ksk.ok_or("no key")?;
                            comps("relinearisation key", &w, &zmul(&s, &s))?;
                        }
                        let mut b = EvaluationKeyBuilder::new_leveled(&ps.sk, l, kl).map_err(es)?;
                        b.enable_row_rotation().map_err(es)?.enable_column_rotation(1).map_err(es)?;
                        let key = b.build(&mut rng(60 + (2 * l + kl) as u64)).map_err(es)?;
                        for g in proto::EvaluationKey::decode(key.to_bytes().as_slice()).map_err(|e| e.to_string())?.gk {
                            comps(&format!("Galois key {}", g.exponent), &g.ksk.ok_or("no key")?, &subst(&s, g.exponent as usize))?;
                        }
                        if l == kl {
                            let g = <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&ps.sk, &ps.plaintext(m, l), &mut rng(70 + l as u64)).map_err(es)?;
                            let w = proto::RgswCiphertext::decode(g.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                            let mz: Vec<BigInt> = m.iter().map(bi).collect();
                            comps("RGSW first", &w.ksk0.ok_or("no key")?, &mz)?;
                            comps("RGSW second", &w.ksk1.ok_or("no key")?, &zmul(&mz, &s))?;
                        }
                        Ok(k)
                    });
                }
            }
            su.case(&format!("{} statistics", ps.name), || {
                su.outcome(h64(&(n, v)));
                pool.lock().unwrap().end()
            });
        });
    });
}

pub fn b16(r: &Rep) {
    large(r);
    let vars: &[usize] = &[1, 2, 3, 5, 8, 10, 15, 16, 17, 20, 31, 32];
    let shapes: [(&str, usize, u64, &[usize]); 3] = [("n32-t97-40,50,45", 32, 97, &[40, 50, 45]), ("n64-t17-1x62", 64, 17, &[62]), ("n32-t2-30,62", 32, 2, &[30, 62])];
    let ns: u64 = if r.thorough { 160 } else { 24 };
    for (sname, n, t, sizes) in shapes {
        let sets: Vec<Ps> = vars.iter().map(|&v| Ps::new(&format!("{sname}-var{v}"), n, bu(t), Mods::Sizes(sizes), v, Secret::Random(40 + v as u64))).collect();
        r.suite(&format!("encryption-{sname}"), &format!("variances {vars:?} x every level x 4 messages x {ns} streams: errors of secret- and public-key encryptions, public keys, secret keys and multiparty shares, read off exactly: within 2v, pairwise distinct, every coefficient varying; random components pairwise distinct and equal to the expansion of the published seed"), |su| {
            su.par(&sets, |ps| {
                su.case(&ps.name, || {
                    let mut p = Pool::new(ps);
                    let ms = messages(ps, 12);
                    for seed in 0..ns {
                        let sk = SecretKey::random(&ps.par, &mut rng(1_000_000 + seed));
                        let c = sk_coeffs(&sk);
                        if sk_coeffs(&SecretKey::random(&ps.par, &mut rng(1_000_000 + seed))) != c {
                            return Err("a secret key is not a function of the stream".into());
                        }
                        p.add("secret key", &format!("{seed}"), c)?;
                        let pk = PublicKey::new(&ps.sk, &mut rng(2_000_000 + seed));
                        let w = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?.c.ok_or("no ciphertext")?;
                        let ct = Ciphertext::from_bytes(&w.encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                        p.mask(format!("public key {seed}"), &coeffs(&ct[1]))?;
                        p.add("public key", &format!("{seed}"), error(ps, &ct, &ps.zero_msg(), 0, &ps.s)?)?;
                        // multiparty shares
                        let crp = CommonRandomPoly::new(&ps.par, &mut rng(seed % 3)).map_err(|e| e.to_string())?;
                        let sh = PublicKeyShare::new(&ps.sk, crp, &mut rng(3_000_000 + seed)).map_err(|e| e.to_string())?;
                        let pk = PublicKey::from_shares([sh]).map_err(|e| e.to_string())?;
                        let w = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?.c.ok_or("no ciphertext")?;
                        let ct = Ciphertext::from_bytes(&w.encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                        p.add("public-key share", &format!("{seed}"), error(ps, &ct, &ps.zero_msg(), 0, &ps.s)?)?;
                    }
                    for l in 0..ps.levels() {
                        let probe = probe(ps, l);
                        let q = ps.qq(l);
                        for (i, mi) in [10usize, 1, 0, 10].iter().enumerate() {
                            let m = &ms[*mi];
                            let pt = ps.plaintext(m, l);
                            for seed in 0..ns {
                                let key = format!("level {l} message {i} stream {seed}");
                                let x = ((l * 4 + i) as u64 + 10) * 1_000_000 + seed;
                                let ct = enc(&ps.sk, &pt, &mut rng(x))?;
                                structure(ps, &ct, 2, l)?;
                                p.add("encryption", &key, error(ps, &ct, m, l, &ps.s)?)?;
                                p.mask(format!("encryption {key}"), &coeffs(&ct[1]))?;
                                let w = ct_proto(&ct);
                                p.seed("encryption", &w.seed);
                                if !w.seed.is_empty() && seeded(&ps.par, l, &w.seed).as_ref() != Some(&coeffs(&ct[1])) {
                                    return Err(format!("{key}: the random component is not the expansion of the published seed"));
                                }
                                if let Some((pk, big)) = &probe {
                                    let c: Ciphertext = pk.try_encrypt(&pt, &mut rng(x + 500_000)).map_err(|e| e.to_string())?;
                                    structure(ps, &c, 2, l)?;
                                    let [u, e1, e2] = pk_parts(ps, &c, m, l, *big).map_err(|e| format!("public-key encryption {key}: {e}"))?;
                                    p.add("mask", &key, u)?;
                                    p.add("first error", &key, e1)?;
                                    p.add("second error", &key, e2)?;
                                    if i == 0 {
                                        let s = PublicKeySwitchShare::new(&ps.sk, pk, &ct, &mut rng(x + 600_000)).map_err(|e| e.to_string())?;
                                        let d = Ciphertext::from_shares([s]).map_err(|e| e.to_string())?;
                                        let z: Vec<BigUint> = power_big(ps, &d[0], l).iter().zip(ps.phase(&ct)).map(|(a, b)| (a + &q - b) % &q).collect();
                                        let [u, e1, e2] = split(ps, l, &z, &power_big(ps, &d[1], l), *big).map_err(|e| format!("public switching share {key}: {e}"))?;
                                        p.add("switching mask", &key, u)?;
                                        p.add("switching first error", &key, e1)?;
                                        p.add("switching second error", &key, e2)?;
                                    }
                                }
                                if i == 0 {
                                    let a = Arc::new(ct);
                                    let zero = sk_from(&ps.par, &vec![0; ps.n]);
                                    let s = SecretKeySwitchShare::new(&ps.sk, &zero, a.clone(), &mut rng(x + 700_000)).map_err(|e| e.to_string())?;
                                    let d = Ciphertext::from_shares([s]).map_err(|e| e.to_string())?;
                                    let z: Vec<BigUint> = power_big(ps, &d[0], l).iter().zip(ps.phase(&a)).map(|(a, b)| (a + &q - b) % &q).collect();
                                    p.add("switching share", &key, small(&z, &q, "the error of the switching share")?)?;
                                }
                                su.outcome(h64(&(&ps.name, l, i, seed)));
                            }
                        }
                    }
                    p.end()
                });
            });
        });
        r.suite(&format!("keys-{sname}"), &format!("variances {vars:?} x every admissible level pair x relinearisation keys, Galois keys of row rotation, column rotations and expansion, RGSW ciphertexts x several streams: error of every component within 2v, all pairwise distinct, random components pairwise distinct"), |su| {
            su.par(&sets, |ps| {
                su.case(&ps.name, || {
                    let mut p = Pool::new(ps);
                    let s = s_poly(ps);
                    let s2 = zmul(&s, &s);
                    let k = if r.thorough { 12 } else { 3 };
                    let mut seeds: Vec<(&str, Vec<u8>)> = vec![];
                    let mut put = |what: String, v: Vec<(E, Vec<Vec<u64>>)>| -> Result<(), String> {
                        for (i, (e, c1)) in v.into_iter().enumerate() {
                            p.add("key component", &format!("{what}[{i}]"), e)?;
                            p.mask(format!("{what}[{i}]"), &c1)?;
                        }
                        su.outcome(h64(&(&ps.name, what)));
                        Ok(())
                    };
                    for l in 0..ps.levels() {
                        for kl in 0..=l {
                            for seed in 0..k {
                                let what = format!("levels {l}/{kl} stream {seed}");
                                let x = 77_000 + ((l * 8 + kl) as u64) * 100 + seed;
                                if ps.ql(kl).len() > 1 {
                                    let rk = RelinearizationKey::new_leveled(&ps.sk, l, kl, &mut rng(x)).map_err(|e| e.to_string())?;
                                    let w = proto::RelinearizationKey::decode(rk.to_bytes().as_slice()).map_err(|e| e.to_string())?.ksk.ok_or("no key")?;
                                    seeds.push(("relinearisation key", w.seed.clone()));
                                    put(format!("relinearisation key {what}"), ksk_errors(ps, &w, &s2, "relinearisation key")?)?;
                                }
                                let mut b = EvaluationKeyBuilder::new_leveled(&ps.sk, l, kl).map_err(|e| e.to_string())?;
                                b.enable_row_rotation().map_err(|e| e.to_string())?;
                                b.enable_column_rotation(1).map_err(|e| e.to_string())?;
                                b.enable_column_rotation(3).map_err(|e| e.to_string())?;
                                b.enable_expansion(2).map_err(|e| e.to_string())?;
                                let key = b.build(&mut rng(x + 50_000)).map_err(|e| e.to_string())?;
                                let w = proto::EvaluationKey::decode(key.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                                for g in w.gk {
                                    let f = subst(&s, g.exponent as usize);
                                    seeds.push(("Galois key", g.ksk.as_ref().map(|k| k.seed.clone()).unwrap_or_default()));
                                    put(format!("Galois key {} {what}", g.exponent), ksk_errors(ps, &g.ksk.ok_or("no key")?, &f, "Galois key")?)?;
                                }
                            }
                        }
                        for (mi, m) in messages(ps, 12).iter().enumerate().filter(|(i, _)| [1, 2, 10].contains(i)) {
                            for seed in 0..k {
                                let g = <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&ps.sk, &ps.plaintext(m, l), &mut rng(990_000 + seed + 100 * mi as u64 + 10_000 * l as u64)).map_err(|e| e.to_string())?;
                                let w = proto::RgswCiphertext::decode(g.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                                let mz: Vec<BigInt> = m.iter().map(bi).collect();
                                let what = format!("RGSW level {l} message {mi} stream {seed}");
                                for k in [&w.ksk0, &w.ksk1].into_iter().flatten() {
                                    seeds.push(("RGSW", k.seed.clone()));
                                }
                                put(format!("{what} first"), ksk_errors(ps, &w.ksk0.ok_or("no key")?, &mz, &what)?)?;
                                put(format!("{what} second"), ksk_errors(ps, &w.ksk1.ok_or("no key")?, &zmul(&mz, &s), &what)?)?;
                            }
                        }
                    }
                    for (kind, s) in &seeds {
                        p.seed(kind, s);
                    }
                    p.end()
                });
            });
        });
    }
    seed_bits(r);
    bits(r);
    joint(r);
}

/// Every bit of a published seed matters to the whole random component.
fn seed_bits(r: &Rep) {
    r.suite("seed-bits", "every single bit of the 32-byte seed of an encryption at every level of three parameter sets: the expansions of the 257 seeds share no modulus' residues with one another, and hardly a coefficient with the original", |su| {
        for (n, sizes) in [(16usize, vec![62usize, 62]), (32, vec![40, 50, 45]), (64, vec![62])] {
            let ps = Ps::new(&format!("n{n}-{sizes:?}"), n, bu(17), Mods::Sizes(&sizes), 3, Secret::Random(5));
            for l in 0..ps.levels() {
                su.case(&format!("{} level {l}", ps.name), || {
                    let ct = enc(&ps.sk, &ps.plaintext(&ps.zero_msg(), l), &mut rng(4))?;
                    let w = ct_proto(&ct);
                    if w.seed.is_empty() {
                        return Ok(0); // nothing published
                    }
                    let base = coeffs(&ct[1]);
                    let mut p = Pool::new(&ps);
                    p.mask("the original".into(), &base)?;
                    for bit in 0..8 * w.seed.len() {
                        let mut x = w.clone();
                        x.seed[bit / 8] ^= 1 << (bit % 8);
                        let c = Ciphertext::from_bytes(&x.encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                        let rows = coeffs(&c[1]);
                        p.mask(format!("the seed with bit {bit} flipped"), &rows)?;
                        if rows.iter().zip(&base).any(|(a, b)| 2 * a.iter().zip(b).filter(|(a, b)| a == b).count() > a.len()) {
                            return Err(format!("flipping bit {bit} of the seed leaves most of the random component as it was"));
                        }
                    }
                    su.outcome(h64(&(n, l)));
                    Ok(256)
                });
            }
        }
    });
}

/// Reads sampled polynomials off what one operation makes of a stream; each is the sum of so many samples.
struct Target<'a> {
    name: String,
    polys: Vec<usize>,
    f: Box<dyn Fn(&mut BitRng) -> Result<Vec<E>, String> + Sync + 'a>,
}
fn target<'a>(name: String, polys: Vec<usize>, f: impl Fn(&mut BitRng) -> Result<Vec<E>, String> + Sync + 'a) -> Target<'a> {
    Target { name, polys, f: Box::new(f) }
}
fn pk_error(ps: &Ps, pk: &PublicKey) -> Result<(E, Ciphertext), String> {
    let w = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?.c.ok_or("no ciphertext")?;
    let ct = Ciphertext::from_bytes(&w.encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
    Ok((error(ps, &ct, &ps.zero_msg(), 0, &ps.s)?, ct))
}
fn rk_errs(ps: &Ps, rk: &RelinearizationKey) -> Result<Vec<E>, String> {
    let s = s_poly(ps);
    let w = proto::RelinearizationKey::decode(rk.to_bytes().as_slice()).map_err(|e| e.to_string())?.ksk.ok_or("no key")?;
    Ok(ksk_errors(ps, &w, &zmul(&s, &s), "relinearisation key")?.into_iter().map(|x| x.0).collect())
}
/// The errors of the joint relinearisation key of one party whose secret is the constant big: for every component
/// (round-one error of the secret, round-one error of the mask, everything else in the component).
fn joint_parts(ps: &Ps, big: i64, crp: &[CommonRandomPoly], a: &[Vec<Vec<u64>>], sk: &SecretKey, r: &mut BitRng) -> Result<Vec<E>, String> {
    let g = RelinKeyGenerator::new(sk, crp, r).map_err(|e| e.to_string())?;
    let r1 = g.round_1(r).map_err(|e| e.to_string())?;
    let r1 = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares([r1]).map_err(|e| e.to_string())?);
    let r2 = g.round_2(&r1, r).map_err(|e| e.to_string())?;
    joint_read(ps, big, a, &RelinearizationKey::from_shares([r2]).map_err(|e| e.to_string())?)
}
fn joint_read(ps: &Ps, big: i64, a: &[Vec<Vec<u64>>], rk: &RelinearizationKey) -> Result<Vec<E>, String> {
    let w = proto::RelinearizationKey::decode(rk.to_bytes().as_slice()).map_err(|e| e.to_string())?.ksk.ok_or("no key")?;
    let ctx = ps.par.context_at_level(0).unwrap();
    let q = ps.qq(0);
    let mut out = vec![];
    for i in 0..ps.q.len() {
        let get = |b: &[u8]| -> Result<Vec<Vec<u64>>, String> { Ok(coeffs(&Poly::<NttShoup>::from_bytes(b, ctx).map_err(|e| e.to_string())?.into_ntt().into_power_basis())) };
        let (c0, c1) = (get(&w.c0[i])?, get(&w.c1[i])?);
        let lift = |f: &dyn Fn(usize, u64, usize) -> u128| -> Vec<BigUint> {
            (0..ps.n).map(|j| crt(&ps.q.iter().enumerate().map(|(r, &m)| (f(r, m, j) % m as u128) as u64).collect::<Vec<_>>(), &ps.q)).collect()
        };
        let big = big as u128;
        let e1 = small(&lift(&|r, m, j| c1[r][j] as u128 + m as u128 - big * a[i][r][j] as u128 % m as u128), &q, "the round-one error of the mask")?;
        let z = small(
            &lift(&|r, m, j| c0[r][j] as u128 + big * c1[r][j] as u128 % m as u128 + m as u128 - if r == i && j == 0 { big * big % m as u128 } else { 0 }),
            &q,
            "the error of the joint key",
        )?;
        let b = big as i64;
        let e0: E = z.iter().map(|v| (2 * v + b).div_euclid(2 * b)).collect();
        let rest: E = z.iter().zip(&e0).map(|(v, w)| v - b * w).collect();
        out.extend([e0, e1, rest]);
    }
    Ok(out)
}

/// Dependence of every sampled polynomial on every bit of the stream.
fn bits(r: &Rep) {
    for v in [1usize, 2, 3, 10, 16, 17, 32] {
        let ps = Ps::new(&format!("var{v}"), 8, bu(17), Mods::Sizes(&[40, 50]), v, Secret::Random(3));
        let psr = &ps;
        let ms = messages(&ps, 12);
        let m = &ms[10];
        let s = s_poly(&ps);
        let es = |e: fhe::Error| e.to_string();
        r.suite(&format!("stream-bits-var{v}"), "every single-bit stream (both polarities) for secret keys, public keys, encryptions under either at every level, relinearisation and Galois keys at every level pair, RGSW ciphertexts, multiparty public-key, switching and decryption shares and both rounds of the joint relinearisation key: a bit moves at most one coefficient, by one; every coefficient of every sampled polynomial is moved up by 2v bits and down by 2v bits", |su| {
            let mut ts: Vec<Target> = vec![];
            ts.push(target("secret key".into(), vec![1], |r| Ok(vec![sk_coeffs(&SecretKey::random(&psr.par, r))])));
            ts.push(target("public key".into(), vec![1], |r| Ok(vec![pk_error(psr, &PublicKey::new(&psr.sk, r))?.0])));
            let crp = CommonRandomPoly::new(&ps.par, &mut rng(5)).unwrap();
            ts.push(target("public-key share".into(), vec![1], move |r| {
                let sh = PublicKeyShare::new(&psr.sk, crp.clone(), r).map_err(es)?;
                Ok(vec![pk_error(psr, &PublicKey::from_shares([sh]).map_err(es)?)?.0])
            }));
            for l in 0..ps.levels() {
                ts.push(target(format!("encryption level {l}"), vec![1], move |r| Ok(vec![error(psr, &enc(&psr.sk, &psr.plaintext(m, l), r)?, m, l, &psr.s)?])));
                let (pk, big) = probe(&ps, l).unwrap();
                let pk2 = pk.clone();
                ts.push(target(format!("public-key encryption level {l}"), vec![1; 3], move |r| {
                    let c: Ciphertext = pk.try_encrypt(&psr.plaintext(m, l), r).map_err(es)?;
                    Ok(pk_parts(psr, &c, m, l, big)?.to_vec())
                }));
                let q = ps.qq(l);
                let ct = Arc::new(ps.enc_seeded(m, l, 9, &ps.errs(3), false));
                let ph = ps.phase(&ct);
                let zero = sk_from(&ps.par, &vec![0; ps.n]);
                let less = |x: &Ciphertext, l: usize, q: &BigUint, ph: &[BigUint]| -> Vec<BigUint> { power_big(psr, &x[0], l).iter().zip(ph).map(|(a, b)| (a + q - b) % q).collect() };
                ts.push(target(format!("switching share level {l}"), vec![1], {
                    let (ct, q, ph) = (ct.clone(), q.clone(), ph.clone());
                    move |r| {
                        let s = SecretKeySwitchShare::new(&psr.sk, &zero, ct.clone(), r).map_err(es)?;
                        Ok(vec![small(&less(&Ciphertext::from_shares([s]).map_err(es)?, l, &q, &ph), &q, "the error of the switching share")?])
                    }
                }));
                ts.push(target(format!("public switching share level {l}"), vec![1; 3], move |r| {
                    let s = PublicKeySwitchShare::new(&psr.sk, &pk2, &ct, r).map_err(es)?;
                    let d = Ciphertext::from_shares([s]).map_err(es)?;
                    Ok(split(psr, l, &less(&d, l, &q, &ph), &power_big(psr, &d[1], l), big)?.to_vec())
                }));
                let k = ps.ql(l).len();
                let s2 = s.clone();
                // the number of components of a key with a single modulus is left to the key
                let comps = |e: &Vec<E>| vec![1usize; e.len()];
                let rg = move |r: &mut BitRng| -> Result<Vec<E>, String> {
                    let g = <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&psr.sk, &psr.plaintext(m, l), r).map_err(es)?;
                    let w = proto::RgswCiphertext::decode(g.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                    let mz: Vec<BigInt> = m.iter().map(bi).collect();
                    let mut v = ksk_errors(psr, &w.ksk0.ok_or("no key")?, &mz, "RGSW")?;
                    v.extend(ksk_errors(psr, &w.ksk1.ok_or("no key")?, &zmul(&mz, &s2), "RGSW")?);
                    Ok(v.into_iter().map(|x| x.0).collect())
                };
                match guard(|| rg(&mut BitRng::hot(&[], 0))) {
                    Ok(Ok(e)) => ts.push(target(format!("RGSW level {l}"), comps(&e), rg)),
                    Ok(Err(e)) | Err(e) => su.fail(&format!("RGSW level {l}"), &e),
                }
                for kl in 0..=l {
                    if ps.ql(kl).len() > 1 {
                        ts.push(target(format!("relinearisation key {l}/{kl}"), vec![1; k], move |r| rk_errs(psr, &RelinearizationKey::new_leveled(&psr.sk, l, kl, r).map_err(es)?)));
                    }
                    let s = s.clone();
                    let gk = move |r: &mut BitRng| -> Result<Vec<E>, String> {
                        let mut b = EvaluationKeyBuilder::new_leveled(&psr.sk, l, kl).map_err(es)?;
                        b.enable_row_rotation().map_err(es)?;
                        let w = proto::EvaluationKey::decode(b.build(r).map_err(es)?.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                        let mut v = vec![];
                        for g in w.gk {
                            v.extend(ksk_errors(psr, &g.ksk.ok_or("no key")?, &subst(&s, g.exponent as usize), "Galois key")?.into_iter().map(|x| x.0));
                        }
                        Ok(v)
                    };
                    match guard(|| gk(&mut BitRng::hot(&[], 0))) {
                        Ok(Ok(e)) => ts.push(target(format!("Galois key {l}/{kl}"), comps(&e), gk)),
                        Ok(Err(e)) | Err(e) => su.fail(&format!("Galois key {l}/{kl}"), &e),
                    }
                }
            }
            // the error of a decryption share shows only next to a rounding boundary
            let l = ps.levels() - 1;
            let edge = (ps.qq(l) / (2u32 * &ps.t)).to_i64().unwrap();
            for up in [true, false] {
                let y = if up { edge } else { edge + 1 };
                let ct = Arc::new(ps.enc_seeded(&ps.zero_msg(), l, 3, &vec![y; ps.n], false));
                ts.push(target(format!("decryption share, {} boundary", if up { "below" } else { "above" }), vec![0], move |r| {
                    let s = DecryptionShare::new(&psr.sk, &ct, r).map_err(es)?;
                    let pt = Plaintext::from_shares([s]).map_err(es)?;
                    Ok(vec![pt_coeffs(psr, &pt)?.iter().map(|x| x.to_i64().unwrap()).collect()])
                }));
            }
            // joint relinearisation key
            let big = 1i64 << 16;
            let mut k = vec![0; ps.n];
            k[0] = big;
            let sk = sk_from(&ps.par, &k);
            let crp = CommonRandomPoly::new_vec(&ps.par, &mut rng(6)).unwrap();
            let a: Vec<Vec<Vec<u64>>> = crp
                .iter()
                .map(|c| {
                    let pk = PublicKey::from_shares([PublicKeyShare::new(&psr.sk, c.clone(), &mut rng(1)).unwrap()]).unwrap();
                    coeffs(&pk_error(psr, &pk).unwrap().1[1].clone().into_power_basis())
                })
                .collect();
            let first = std::sync::OnceLock::new();
            ts.push(target("joint relinearisation key".into(), [1, 1, 2].repeat(ps.q.len()), move |r| joint_parts(psr, big, &crp, &a, &sk, r)));
            for t in &ts {
                for base in [0u8, 255] {
                    let mut z = BitRng::hot(&[], base);
                    let zero = match guard(|| (t.f)(&mut z)) {
                        Ok(Ok(z)) if z.len() == t.polys.len() => z,
                        Ok(Ok(z)) => {
                            su.fail(&t.name, &format!("{} sampled polynomials, expected {}", z.len(), t.polys.len()));
                            continue;
                        }
                        Ok(Err(e)) | Err(e) => {
                            su.fail(&t.name, &e);
                            continue;
                        }
                    };
                    // (polynomial, coefficient) -> bits that move it (up, down)
                    let moved = std::sync::Mutex::new(std::collections::BTreeMap::<(usize, usize), [usize; 2]>::new());
                    su.par_n(z.pos * 8, |i| {
                        su.case(&format!("{} base {base} bit {i}", t.name), || {
                            let e = (t.f)(&mut BitRng::hot(&[i], base))?;
                            let mut n = 0;
                            for (k, (a, b)) in e.iter().zip(&zero).enumerate() {
                                for (j, (x, y)) in a.iter().zip(b).enumerate() {
                                    if x != y {
                                        n += 1;
                                        if (x - y).abs() != 1 || x.abs() > ps.b as i64 {
                                            return Err(format!("one bit moves a coefficient from {y} to {x}"));
                                        }
                                        moved.lock().unwrap().entry((k, j)).or_default()[(x < y) as usize] += 1;
                                        if t.name.starts_with("joint") && base == 0 && (k, j) == (1, 0) {
                                            let _ = first.set(i);
                                        }
                                    }
                                }
                            }
                            if n > 1 {
                                return Err(format!("one bit of the stream moves {n} coefficients"));
                            }
                            Ok(1)
                        });
                    });
                    if su.stop() {
                        return;
                    }
                    let got = moved.into_inner().unwrap();
                    su.outcome(h64(&(&t.name, base, got.len())));
                    for (k, mult) in t.polys.iter().enumerate() {
                        for j in 0..ps.n {
                            let [u, d] = got.get(&(k, j)).copied().unwrap_or_default();
                            let bad = if *mult == 0 { u + d != 2 * v } else { u != 2 * v * mult || d != 2 * v * mult };
                            if bad {
                                su.fail(&t.name, &format!("coefficient {j} of sampled polynomial {k} is moved up by {u} and down by {d} bits of the stream, variance {v} needs {} each", 2 * v * mult.max(&1)));
                            }
                        }
                    }
                }
            }
            // the ephemeral secret of the joint key shows next to a non-zero error of the mask
            let Some(&hot) = first.get() else {
                if !su.stop() {
                    su.fail("ephemeral secret", "no bit moves the mask");
                }
                return;
            };
            let t = ts.last().unwrap();
            let mut z = BitRng::hot(&[hot], 0);
            let zero = (t.f)(&mut z).unwrap();
            let alone = (t.f)(&mut BitRng::hot(&[], 0)).unwrap();
            let moved = std::sync::Mutex::new(vec![[0usize; 2]; ps.n]);
            su.par_n(z.pos * 8, |i| {
                su.case(&format!("ephemeral secret bit {i}"), || {
                    let (e, o) = ((t.f)(&mut BitRng::hot(&[hot, i], 0))?, (t.f)(&mut BitRng::hot(&[i], 0))?);
                    if o == alone && e != zero {
                        let d: E = e[2].iter().zip(&zero[2]).map(|(x, y)| x - y).collect();
                        let at: Vec<usize> = (0..ps.n).filter(|j| d[*j] != 0).collect();
                        if at.len() == 1 && d[at[0]].abs() == 1 {
                            moved.lock().unwrap()[at[0]][(d[at[0]] < 0) as usize] += 1;
                        }
                    }
                    Ok(2)
                });
            });
            for (j, m) in moved.into_inner().unwrap().iter().enumerate() {
                if !su.stop() && *m != [2 * v, 2 * v] {
                    su.fail("ephemeral secret", &format!("coefficient {j} is moved up by {} and down by {} bits, variance {v} needs {}", m[0], m[1], 2 * v));
                }
            }
        });
    }
}

/// Joint relinearisation keys over many streams: round-one errors of all components within the bound and distinct.
fn joint(r: &Rep) {
    let sizes: [&[usize]; 3] = [&[50, 45], &[40, 50, 45], &[45, 40, 50, 45]];
    for (i, sz) in sizes.iter().enumerate() {
        let ns: u64 = if r.thorough { 120 } else { 24 };
        r.suite(&format!("joint-{}-moduli", sz.len()), &format!("variances 1, 10, 32 x {ns} streams of the joint relinearisation key over moduli of {sz:?} bits: the errors of all components read off exactly, within 2v, pairwise distinct; common random polynomials pairwise distinct"), |su| {
            su.par(&[1usize, 10, 32], |&v| {
                let ps = Ps::new(&format!("var{v}"), 32, bu(17), Mods::Sizes(sz), v, Secret::Random(3));
                let big = 1i64 << 20;
                let mut k = vec![0; ps.n];
                k[0] = big;
                let sk = sk_from(&ps.par, &k);
                su.case(&ps.name, || {
                    let mut p = Pool::new(&ps);
                    for seed in 0..ns {
                        let es = |e: fhe::Error| e.to_string();
                        let x = (i as u64 + 1) * 10_000_000 + v as u64 * 100_000 + seed * 10;
                        let crp = CommonRandomPoly::new_vec(&ps.par, &mut rng(x)).map_err(es)?;
                        if crp.len() != sz.len() {
                            return Err(format!("{} common random polynomials", crp.len()));
                        }
                        let mut a = vec![];
                        for (c, crp) in crp.iter().enumerate() {
                            let pk = PublicKey::from_shares([PublicKeyShare::new(&ps.sk, crp.clone(), &mut rng(1)).map_err(es)?]).map_err(es)?;
                            let rows = coeffs(&pk_error(&ps, &pk)?.1[1].clone().into_power_basis());
                            p.mask(format!("common random polynomial {seed}[{c}]"), &rows)?;
                            a.push(rows);
                        }
                        let mut st = rng(x + 1);
                        let g = RelinKeyGenerator::new(&sk, &crp, &mut st).map_err(es)?;
                        let r1 = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares([g.round_1(&mut st).map_err(es)?]).map_err(es)?);
                        let rk = RelinearizationKey::from_shares([g.round_2(&r1, &mut st).map_err(es)?]).map_err(es)?;
                        for (c, e) in joint_read(&ps, big, &a, &rk)?.into_iter().enumerate() {
                            let key = format!("stream {seed} component {}", c / 3);
                            match c % 3 {
                                0 => p.add("round-one secret error", &key, e)?,
                                1 => p.add("round-one mask error", &key, e)?,
                                _ => (),
                            }
                        }
                        su.outcome(h64(&(v, seed)));
                    }
                    p.end()
                });
            });
        });
    }
}
