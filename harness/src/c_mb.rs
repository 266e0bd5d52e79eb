//! C01, C02: multiparty key generation, switching and decryption.
use crate::a_poly::*;
use crate::b_core::*;
use crate::b_ops::shapes;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, Multiplicator, Plaintext, PublicKey, RelinearizationKey, SecretKey};
use fhe::mbfv::round::R1Aggregated;
use fhe::mbfv::{Aggregate, AggregateIter, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare};
use fhe::proto::bfv as proto;
use fhe_math::rq::{NttShoup, Poly};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::{Signed, ToPrimitive, Zero};
use prost::Message;
use std::sync::Arc;

/// k parties and the model of their joint secret.
pub struct Group {
    pub k: usize,
    pub sks: Vec<SecretKey>,
    pub s: Vec<Vec<i64>>,
    /// parameters with the sum of the secrets
    pub ps: Ps,
}
/// share kinds: 0 random, 1 zero, 2 extreme, 3 the opposite extreme
fn share(par: &Arc<BfvParameters>, var: u64, kind: usize, seed: u64) -> Vec<i64> {
    let b = 2 * var as i64;
    let n = par.degree();
    match kind {
        0 => sk_coeffs(&SecretKey::random(par, &mut rng(seed))),
        1 => vec![0; n],
        2 => (0..n).map(|i| if i % 3 == 1 { -b } else { b }).collect(),
        _ => (0..n).map(|i| if i % 3 == 1 { b } else { -b }).collect(),
    }
}
impl Group {
    pub fn new(base: &Ps, kinds: &[usize], seed: u64) -> Group {
        let s: Vec<Vec<i64>> = kinds.iter().enumerate().map(|(i, k)| share(&base.par, base.var, *k, seed * 1000 + i as u64)).collect();
        let tot: Vec<i64> = (0..base.n).map(|j| s.iter().map(|v| v[j]).sum()).collect();
        Group {
            k: kinds.len(),
            sks: s.iter().map(|v| sk_from(&base.par, v)).collect(),
            ps: Ps::with(&base.name, base.par.clone(), base.var as usize, Secret::List(tot)),
            s,
        }
    }
    fn kb(&self) -> BigUint {
        bu(self.k as u64 * self.ps.b)
    }
    /// w_pk for a public key whose error is the sum of k errors
    fn w_pk(&self, level: usize) -> BigUint {
        let ps = &self.ps;
        let eb = self.kb() + bu(level as u64) * (&ps.s1[2] + 1u32);
        (bu(ps.n as u64) * ps.b * eb + ps.b + &ps.s1[2] * ps.b) * &ps.t + &ps.t
    }
    fn w_pks(&self, out: &Group, level: usize) -> BigUint {
        let ps = &out.ps;
        let eb = out.kb() + bu(level as u64) * (&ps.s1[2] + 1u32);
        (bu(ps.n as u64) * self.kb() * eb + self.kb() + &ps.s1[2] * self.kb()) * &ps.t + &ps.t
    }
    fn pk_shares(&self, crp: &CommonRandomPoly, seed: u64) -> Result<Vec<PublicKeyShare>, String> {
        self.sks.iter().enumerate().map(|(i, s)| PublicKeyShare::new(s, crp.clone(), &mut rng(seed + i as u64)).map_err(|e| format!("share {i}: {e}"))).collect()
    }
    pub fn pk(&self, seed: u64) -> PublicKey {
        let crp = CommonRandomPoly::new(&self.ps.par, &mut rng(seed)).unwrap();
        PublicKey::from_shares(self.pk_shares(&crp, seed * 100).unwrap()).unwrap()
    }
}
fn pk_rows(pk: &PublicKey, par: &Arc<BfvParameters>) -> Result<(Ciphertext, proto::Ciphertext), String> {
    let p = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?.c.ok_or("no ciphertext in the public key")?;
    Ok((Ciphertext::from_bytes(&p.encode_to_vec(), par).map_err(|e| e.to_string())?, p))
}
/// largest centred coefficient
fn big(v: &[BigUint], q: &BigUint) -> BigUint {
    v.iter().map(|x| centre(x, q).abs().to_biguint().unwrap()).max().unwrap()
}
fn diff(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + q - y) % q).collect()
}
fn add_rows(a: &mut [Vec<u64>], b: &[Vec<u64>], q: &[u64]) {
    let _ = a.iter_mut().zip(b).zip(q).map(|((x, y), m)| x.iter_mut().zip(y).for_each(|(u, v)| *u = ((*u as u128 + *v as u128) % *m as u128) as u64)).count();
}
fn power(p: &Poly<fhe_math::rq::Ntt>) -> Vec<Vec<u64>> {
    coeffs(&p.clone().into_power_basis())
}
fn pick<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}
fn kind_sets(kmax: usize, kinds: usize) -> Vec<Vec<usize>> {
    (1..=kmax).flat_map(|k| all_tuples(kinds, k)).collect()
}
fn orders(k: usize, full: usize) -> Vec<Vec<usize>> {
    if k <= full {
        permutations(k)
    } else {
        // identity, reversal, all rotations, all transpositions
        let id: Vec<usize> = (0..k).collect();
        let mut v = vec![id.clone(), id.iter().rev().copied().collect()];
        for r in 1..k.min(9) {
            v.push((0..k).map(|i| (i + r) % k).collect());
        }
        for i in 0..k.min(8) {
            for j in i + 1..k.min(8) {
                let mut x = id.clone();
                x.swap(i, j);
                v.push(x);
            }
        }
        v
    }
}
/// The plaintext of a collective decryption must be the message, in every respect.
fn check_plain(g: &Group, ct: &Ciphertext, pt: &Plaintext, m: &Vec<BigUint>, level: usize) -> Result<(), String> {
    let ps = &g.ps;
    if pt.level() != level {
        return Err(format!("collective decryption of level {level} is at level {}", pt.level()));
    }
    let c = pt_coeffs(ps, pt)?;
    if c != *m {
        return Err(format!("collective decryption gives {c:?}, expected {m:?}"));
    }
    let d = ps.sk.try_decrypt(ct).map_err(|e| format!("decryption under the sum of the secrets: {e}"))?;
    if pt_coeffs(ps, &d)? != *m || d != *pt {
        return Err("collective decryption differs from decryption under the sum of the secrets".into());
    }
    if let Some(_t) = ps.t.to_u64() {
        let v = Vec::<u64>::try_decode(pt, Encoding::poly_at_level(level)).map_err(|e| format!("decoding: {e}"))?;
        if v.iter().map(|x| bu(*x)).collect::<Vec<_>>() != *m {
            return Err(format!("decodes to {v:?}, expected {m:?}"));
        }
    }
    // the plaintext is a proper plaintext: encrypt it again
    let again = ps.sk_enc(pt, 77).map_err(|e| format!("encrypting the result: {e}"))?;
    if ps.decrypt_coeffs(&again)? != *m {
        return Err("encrypting the decrypted plaintext again gives another message".into());
    }
    Ok(())
}
fn dec_shares(g: &Group, ct: &Arc<Ciphertext>, seed: u64, order: &[usize]) -> Result<Vec<DecryptionShare>, String> {
    order.iter().map(|&i| DecryptionShare::new(&g.sks[i], ct, &mut rng(seed + i as u64)).map_err(|e| format!("decryption share {i}: {e}"))).collect()
}
fn collective(g: &Group, ct: &Arc<Ciphertext>, seed: u64, order: &[usize]) -> Result<Plaintext, String> {
    Plaintext::from_shares(dec_shares(g, ct, seed, order)?).map_err(|e| format!("aggregation: {e}"))
}
fn sks_shares(a: &Group, b: &Group, ct: &Arc<Ciphertext>, seed: u64, order: &[usize]) -> Result<Vec<SecretKeySwitchShare>, String> {
    order.iter().map(|&i| SecretKeySwitchShare::new(&a.sks[i], &b.sks[i], ct.clone(), &mut rng(seed + i as u64)).map_err(|e| format!("switching share {i}: {e}"))).collect()
}
fn pks_shares(a: &Group, pk: &PublicKey, ct: &Ciphertext, seed: u64, order: &[usize]) -> Result<Vec<PublicKeySwitchShare>, String> {
    order.iter().map(|&i| PublicKeySwitchShare::new(&a.sks[i], pk, ct, &mut rng(seed + i as u64)).map_err(|e| format!("public switching share {i}: {e}"))).collect()
}
/// Ciphertexts of the group: fresh, from the joint public key, and results of operations.
fn cases(g: &Group, pk: &PublicKey, level: usize) -> Vec<(&'static str, Cm)> {
    let ps = &g.ps;
    let ms = messages(ps, 10);
    let enc = |m: &Vec<BigUint>, seed| {
        let mut c = fresh_pk(ps, pk, m, level, seed);
        c.w = g.w_pk(level);
        c
    };
    let mut v = vec![("secret-key encryption", fresh(ps, &ms[8], level, 3, 1, true)), ("all maximal", fresh(ps, &ms[1], level, 4, 3, false))];
    let (a, b) = (enc(&ms[9], 5), enc(&ms[5], 6));
    v.push(("sum", Cm { ct: &a.ct + &b.ct, m: ps.padd(&a.m, &b.m), parts: 2, level, w: &a.w + &b.w }));
    v.push(("negation", Cm { ct: -&a.ct, m: ps.pneg(&a.m), parts: 2, level, w: a.w.clone() }));
    v.push(("plaintext product", Cm { ct: &a.ct * &ps.plaintext(&ms[8], level), m: ps.pmul(&a.m, &ms[8]), parts: 2, level, w: ps.w_mulpt(&a.w, &ms[8]) }));
    if level > 0 {
        let c = enc_at(ps, g, pk, &ms[6], level - 1, 8);
        let mut ct = c.ct.clone();
        ct.switch_down().unwrap();
        v.push(("switched down", Cm { ct, m: c.m.clone(), parts: 2, level, w: ps.w_down(&c.w, 2, level - 1, level) }));
    }
    if ps.q.len() > 1 {
        let rk = RelinearizationKey::new_leveled(&ps.sk, level, 0, &mut rng(12)).unwrap();
        let mut ct = &a.ct * &b.ct;
        rk.relinearizes(&mut ct).unwrap();
        let w = ps.w_mul((&a.w, 2), (&b.w, 2), level) + w_ks_total(g, level);
        v.push(("relinearised product", Cm { ct, m: ps.pmul(&a.m, &b.m), parts: 2, level, w }));
    }
    v.push(("public-key encryption", a));
    v
}
fn enc_at(ps: &Ps, g: &Group, pk: &PublicKey, m: &Vec<BigUint>, level: usize, seed: u64) -> Cm {
    let mut c = fresh_pk(ps, pk, m, level, seed);
    c.w = g.w_pk(level);
    c
}
fn w_ks_total(g: &Group, level: usize) -> BigUint {
    g.ps.w_ks(level, 0)
}

fn sets(thorough: bool) -> Vec<fn() -> Ps> {
    let mut v = vec![p0 as fn() -> Ps, p1, p3, p4, p5, p6, p8];
    if thorough {
        v.extend([p2 as fn() -> Ps, p7, p9]);
    }
    v
}

pub fn c01(r: &Rep) {
    // every shape and degree: joint key, decryption, switching to another sharing and to another joint key
    shapes(r, "joint", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let (g, h) = (Group::new(ps, &[0, 2, 0], 1), Group::new(ps, &[0, 0, 3], 2));
        let (pk, hk) = (g.pk(7), h.pk(8));
        let mut z = 0;
        let small = ps.msg(&[3, 0, 1]);
        let a = enc_at(ps, &g, &pk, &c.m, l, 5);
        let a = Cm { ct: &a.ct * &ps.plaintext(&small, l), m: ps.pmul(&a.m, &small), w: ps.w_mulpt(&a.w, &small), ..a };
        z += verify(&g.ps, &a)?;
        let ct = Arc::new(a.ct);
        let w = &a.w + &ps.t * g.kb();
        if ps.ok(&w, l) {
            check_plain(&g, &ct, &collective(&g, &ct, 60, &[2, 0, 1])?, &a.m, l)?;
            z += 1;
        }
        let d: Ciphertext = Ciphertext::from_shares(sks_shares(&g, &h, &ct, 80, &[1, 2, 0])?).map_err(|e| format!("aggregation: {e}"))?;
        z += verify(&h.ps, &Cm { ct: d, m: a.m.clone(), parts: 2, level: l, w }).map_err(|e| format!("switched: {e}"))?;
        let d: Ciphertext = Ciphertext::from_shares(pks_shares(&g, &hk, &ct, 95, &[0, 1, 2])?).map_err(|e| format!("aggregation: {e}"))?;
        z += verify(&h.ps, &Cm { ct: d, m: a.m, parts: 2, level: l, w: &a.w + g.w_pks(&h, l) }).map_err(|e| format!("switched to a public key: {e}"))?;
        Ok(z)
    });
    for f in sets(r.thorough) {
        let base = f();
        let nl = base.levels();
        let kmax = if r.thorough { 4 } else { 3 };
        let desc = format!("N={} t={} moduli {:?}", base.n, base.t, base.q);
        let gs: Vec<Group> = kind_sets(kmax, 4).iter().map(|k| Group::new(&base, k, 1)).chain([5usize, 8, 16].iter().map(|&k| Group::new(&base, &(0..k).map(|i| i % 4).collect::<Vec<_>>(), 2))).collect();
        r.suite(&format!("public-key-{}", base.name), &format!("all tuples of share kinds (random, zero, extreme, opposite) for 1..={kmax} parties and 5, 8, 16 parties x all share orders (all up to 5 parties): exact error of every share and aggregate; encryption at every level; {desc}"), |su| {
            su.par(&gs, |g| {
                su.case(&format!("{} parties {:?}", g.k, g.s.iter().map(|s| s[0]).collect::<Vec<_>>()), || {
                    let ps = &g.ps;
                    let q = ps.qq(0);
                    let mut trans = 0;
                    for seed in [21u64, 22] {
                        let crp = CommonRandomPoly::new(&ps.par, &mut rng(seed)).map_err(|e| e.to_string())?;
                        let sh = g.pk_shares(&crp, 300 + seed * 10)?;
                        let mut sum: Vec<Vec<u64>> = vec![vec![0; ps.n]; ps.q.len()];
                        let mut c1: Option<Vec<Vec<u64>>> = None;
                        for (i, s) in sh.iter().enumerate() {
                            let one = PublicKey::from_shares([s.clone()]).map_err(|e| format!("one share: {e}"))?;
                            let (c, _) = pk_rows(&one, &ps.par)?;
                            let e = phase_with(ps, &c, &g.s[i]);
                            if big(&e, &q) > bu(ps.b) {
                                return Err(format!("share {i} has error {} above {}", big(&e, &q), ps.b));
                            }
                            if big(&e, &q).is_zero() {
                                return Err(format!("share {i} has no error"));
                            }
                            add_rows(&mut sum, &power(&c[0]), &ps.q);
                            let p1 = power(&c[1]);
                            if c1.as_ref().is_some_and(|x| *x != p1) {
                                return Err("shares of one common polynomial disagree on it".into());
                            }
                            c1 = Some(p1);
                        }
                        let want = (sum, c1.unwrap());
                        for o in orders(g.k, 5) {
                            let v = pick(&sh, &o);
                            let pk = match trans % 7 {
                                0 => PublicKey::from_shares(v),
                                h @ 3.. => PublicKey::from_shares(Hint(v.into_iter(), h as usize - 3)),
                                1 => v.into_iter().map(Ok::<_, fhe::Error>).aggregate(),
                                _ => v.into_iter().aggregate(),
                            }
                            .map_err(|e| format!("aggregation: {e}"))?;
                            let (c, p) = pk_rows(&pk, &ps.par)?;
                            structure(ps, &c, 2, 0)?;
                            if !p.seed.is_empty() {
                                return Err("a jointly generated key claims a seed".into());
                            }
                            if power(&c[0]) != want.0 || power(&c[1]) != want.1 {
                                return Err(format!("order {o:?} gives another key than the sum of the shares"));
                            }
                            let e = big(&ps.phase(&c), &q);
                            if e > g.kb() {
                                return Err(format!("the joint key has error {e} above {}", g.kb()));
                            }
                            trans += 1;
                        }
                        let pk = PublicKey::from_shares(sh.clone()).map_err(|e| e.to_string())?;
                        let back = PublicKey::from_bytes(&pk.to_bytes(), &ps.par).map_err(|e| format!("reading the joint key: {e}"))?;
                        if back != pk {
                            return Err("the joint key read back differs".into());
                        }
                        for l in 0..nl {
                            for (i, m) in messages(ps, 10).iter().enumerate().skip(seed as usize % 2).step_by(2) {
                                for k in [&pk, &back] {
                                    let mut c = fresh_pk(ps, k, m, l, 40 + i as u64);
                                    c.w = g.w_pk(l);
                                    verify(ps, &c).map_err(|e| format!("level {l} message {i}: {e}"))?;
                                    trans += 1;
                                }
                            }
                        }
                    }
                    // different common polynomials give different keys, different streams different shares
                    let (a, b) = (g.pk(1), g.pk(2));
                    if power(&pk_rows(&a, &ps.par)?.0[1]) == power(&pk_rows(&b, &ps.par)?.0[1]) {
                        return Err("two common polynomials coincide".into());
                    }
                    let crp = CommonRandomPoly::new(&ps.par, &mut rng(9)).map_err(|e| e.to_string())?;
                    let x = PublicKeyShare::new(&g.sks[0], crp.clone(), &mut rng(1)).map_err(|e| e.to_string())?;
                    let y = PublicKeyShare::new(&g.sks[0], crp.clone(), &mut rng(2)).map_err(|e| e.to_string())?;
                    if x == y {
                        return Err("shares made with different random streams coincide".into());
                    }
                    su.outcome(h64(&(g.k, &g.s)));
                    Ok(trans)
                });
            });
        });
        let kinds: Vec<Vec<usize>> = kind_sets(2, 4).into_iter().chain([vec![0, 0, 0], vec![2, 2, 2], vec![2, 3, 0], vec![0, 1, 2], vec![0, 0, 0, 0], vec![2, 2, 3, 0]]).chain(if r.thorough { all_tuples(4, 3) } else { vec![] }).collect();
        let gs: Vec<Group> = kinds.iter().map(|k| Group::new(&base, k, 3)).collect();
        let items: Vec<(usize, usize)> = (0..gs.len()).flat_map(|i| (0..nl).map(move |l| (i, l))).collect();
        r.suite(&format!("decryption-{}", base.name), &format!("share kinds x every level x ciphertexts (fresh under either key, sums, negations, plaintext products, switched, relinearised products) x all orders of the decryption shares; {desc}"), |su| {
            su.par(&items, |&(i, l)| {
                let g = &gs[i];
                let ps = &g.ps;
                su.case(&format!("group {:?} level {l}", kinds[i]), || {
                    let mut trans = 0;
                    let pk = g.pk(7);
                    for (name, c) in cases(g, &pk, l) {
                        verify(ps, &c).map_err(|e| format!("{name}: {e}"))?;
                        let w = &c.w + &ps.t * g.kb();
                        let exact = ps.ok(&w, l);
                        let ct = Arc::new(c.ct.clone());
                        let mut first: Option<Plaintext> = None;
                        for o in orders(g.k, 4) {
                            let pt = if o[0] == 0 {
                                collective(g, &ct, 60, &o)?
                            } else if trans % 2 == 1 {
                                Plaintext::from_shares(Hint(dec_shares(g, &ct, 60, &o)?.into_iter(), trans as usize / 2 % HINTS)).map_err(|e| format!("aggregation: {e}"))?
                            } else {
                                dec_shares(g, &ct, 60, &o)?.into_iter().map(Ok::<_, fhe::Error>).aggregate().map_err(|e| format!("aggregation: {e}"))?
                            };
                            if exact {
                                check_plain(g, &ct, &pt, &c.m, l).map_err(|e| format!("{name}, order {o:?}: {e}"))?;
                            }
                            if first.as_ref().is_some_and(|f| *f != pt) {
                                return Err(format!("{name}: order {o:?} changes the result"));
                            }
                            first = Some(pt);
                            trans += 1;
                        }
                        su.outcome(h64(&(i, l, name, exact)));
                    }
                    Ok(trans)
                });
            });
        });
        r.suite(&format!("switching-{}", base.name), &format!("share kinds of both groups x every level x ciphertexts x all share orders: switching to another sharing and to another public key, exact added noise, then collective decryption by the receivers; {desc}"), |su| {
            su.par(&items, |&(i, l)| {
                let g = &gs[i];
                let ps = &g.ps;
                su.case(&format!("group {:?} level {l}", kinds[i]), || {
                    let mut trans = 0;
                    let pk = g.pk(7);
                    let q = ps.qq(l);
                    let outs: Vec<Vec<usize>> = if g.k <= 2 { all_tuples(4, g.k) } else { vec![vec![0; g.k], (0..g.k).map(|x| (x + 1) % 4).collect(), vec![1; g.k]] };
                    for (oi, ok) in outs.iter().enumerate() {
                        let h = Group::new(&base, ok, 4);
                        let hk = h.pk(17);
                        for (ci, (name, c)) in cases(g, &pk, l).into_iter().enumerate() {
                            if oi > 1 && ci % outs.len() != oi % outs.len() && !r.thorough {
                                continue;
                            }
                            let ct = Arc::new(c.ct.clone());
                            let before = ps.phase(&ct);
                            let mut first: Option<Ciphertext> = None;
                            for o in orders(g.k, 4) {
                                let d: Ciphertext = Ciphertext::from_shares(Hint(sks_shares(g, &h, &ct, 80, &o)?.into_iter(), trans as usize % HINTS)).map_err(|e| format!("aggregation: {e}"))?;
                                structure(ps, &d, 2, l).map_err(|e| format!("{name}: {e}"))?;
                                let e = big(&diff(&phase_with(ps, &d, &h.ps.s), &before, &q), &q);
                                if e > g.kb() {
                                    return Err(format!("{name}: switching adds an error of {e}, above {}", g.kb()));
                                }
                                if first.as_ref().is_some_and(|f| *f != d) {
                                    return Err(format!("{name}: order {o:?} changes the result"));
                                }
                                first = Some(d);
                                trans += 1;
                            }
                            let d = first.unwrap();
                            let w = &c.w + &ps.t * g.kb();
                            verify(&h.ps, &Cm { ct: d.clone(), m: c.m.clone(), parts: 2, level: l, w: w.clone() }).map_err(|e| format!("{name} switched to {ok:?}: {e}"))?;
                            let rt = Ciphertext::from_bytes(&d.to_bytes(), &ps.par).map_err(|e| format!("{name}: reading the result: {e}"))?;
                            if rt != d {
                                return Err(format!("{name}: the result read back differs"));
                            }
                            let w2 = &w + &ps.t * h.kb();
                            if ps.ok(&w2, l) {
                                let d = Arc::new(d);
                                check_plain(&h, &d, &collective(&h, &d, 90, &(0..h.k).rev().collect::<Vec<_>>())?, &c.m, l).map_err(|e| format!("{name} switched to {ok:?}: {e}"))?;
                            }
                            // to the joint public key of the receivers
                            let mut first: Option<Ciphertext> = None;
                            let add = g.w_pks(&h, l);
                            for o in orders(g.k, 4) {
                                let d: Ciphertext = Ciphertext::from_shares(Hint(pks_shares(g, &hk, &ct, 95, &o)?.into_iter(), trans as usize % HINTS)).map_err(|e| format!("aggregation: {e}"))?;
                                structure(ps, &d, 2, l).map_err(|e| format!("{name}: {e}"))?;
                                let e = big(&diff(&phase_with(ps, &d, &h.ps.s), &before, &q), &q);
                                if e * &ps.t > add {
                                    return Err(format!("{name}: switching to a public key adds more than {add}"));
                                }
                                if first.as_ref().is_some_and(|f| *f != d) {
                                    return Err(format!("{name}: order {o:?} changes the result"));
                                }
                                first = Some(d);
                                trans += 1;
                            }
                            let d = first.unwrap();
                            if ct_rows(&d)[1] == ct_rows(&ct)[1] {
                                return Err(format!("{name}: the second part was not re-randomised"));
                            }
                            verify(&h.ps, &Cm { ct: d, m: c.m.clone(), parts: 2, level: l, w: &c.w + add }).map_err(|e| format!("{name} switched to the key of {ok:?}: {e}"))?;
                        }
                        su.outcome(h64(&(i, l, oi)));
                    }
                    Ok(trans)
                });
            });
        });
    }
    for f in [p0 as fn() -> Ps, p1] {
        let base = f();
        let m = Proto::new(base);
        let depth = if r.thorough { 5 } else { 4 };
        r.suite(&format!("histories-{}", m.name), &format!("all histories up to depth {depth} of: hand over to another group (secret shares or public key), add, multiply and relinearise, multiply by a plaintext, switch down, serialise; collective decryption in every state"), |su| {
            let init = (0..2).map(|i| (format!("message {i}"), m.init(i))).collect();
            bfs(su, &m, init, depth, 400_000);
        });
    }
    misuse(r);
}

/// Histories of hand-overs and operations among three groups.
struct Proto {
    name: String,
    gs: Vec<Group>,
    pks: Vec<PublicKey>,
    rks: Vec<Vec<RelinearizationKey>>,
}
#[derive(Clone)]
struct Held {
    c: Cm,
    g: usize,
}
#[derive(Clone, Debug)]
enum Step {
    Secret(usize),
    Public(usize),
    Double,
    AddFresh,
    Square,
    MulPt,
    Down,
    Wire,
}
impl Proto {
    fn new(base: Ps) -> Proto {
        let gs: Vec<Group> = [vec![0, 0, 1], vec![0, 2, 3], vec![1, 1, 0]].iter().enumerate().map(|(i, k)| Group::new(&base, k, 30 + i as u64)).collect();
        Proto {
            name: base.name.clone(),
            pks: gs.iter().enumerate().map(|(i, g)| g.pk(50 + i as u64)).collect(),
            rks: gs.iter().map(|g| (0..base.levels()).map(|l| RelinearizationKey::new_leveled(&g.ps.sk, l, 0, &mut rng(5)).unwrap()).collect()).collect(),
            gs,
        }
    }
    fn init(&self, i: usize) -> Held {
        let g = &self.gs[0];
        let m = messages(&g.ps, 10)[8 + i % 2].clone();
        Held { c: enc_at(&g.ps, g, &self.pks[0], &m, 0, 60), g: 0 }
    }
}
impl Machine for Proto {
    type State = Held;
    type Op = Step;
    fn ops(&self, s: &Held) -> Vec<Step> {
        let mut v = vec![Step::Double, Step::AddFresh, Step::Square, Step::MulPt, Step::Wire];
        if s.c.level + 1 < self.gs[0].ps.levels() {
            v.push(Step::Down);
        }
        for g in 0..self.gs.len() {
            v.push(Step::Secret(g));
            v.push(Step::Public(g));
        }
        v
    }
    fn canon(&self, s: &Held) -> u128 {
        h128(&(ct_rows(&s.c.ct), s.g, s.c.level))
    }
    fn step(&self, s: &Held, op: &Step) -> Result<Held, String> {
        let g = &self.gs[s.g];
        let ps = &g.ps;
        let mut n = s.clone();
        let c = &s.c;
        let l = c.level;
        let arc = Arc::new(c.ct.clone());
        let order: Vec<usize> = (0..g.k).map(|i| (i + 1) % g.k).collect();
        match op {
            Step::Secret(o) => {
                n.c.ct = Ciphertext::from_shares(sks_shares(g, &self.gs[*o], &arc, 200, &order)?).map_err(|e| e.to_string())?;
                n.c.w = &c.w + &ps.t * g.kb();
                n.g = *o;
            }
            Step::Public(o) => {
                n.c.ct = Ciphertext::from_shares(pks_shares(g, &self.pks[*o], &arc, 210, &order)?).map_err(|e| e.to_string())?;
                n.c.w = &c.w + g.w_pks(&self.gs[*o], l);
                n.g = *o;
            }
            Step::Double => {
                n.c.ct = &c.ct + &c.ct;
                n.c.m = ps.padd(&c.m, &c.m);
                n.c.w = &c.w * 2u32;
            }
            Step::AddFresh => {
                let o = enc_at(ps, g, &self.pks[s.g], &messages(ps, 8)[7], l, 61);
                n.c.ct = &c.ct + &o.ct;
                n.c.m = ps.padd(&c.m, &o.m);
                n.c.w = &c.w + o.w;
            }
            Step::Square => {
                n.c.ct = &c.ct * &c.ct;
                self.rks[s.g][l].relinearizes(&mut n.c.ct).map_err(|e| e.to_string())?;
                n.c.m = ps.pmul(&c.m, &c.m);
                n.c.w = ps.w_mul((&c.w, 2), (&c.w, 2), l) + ps.w_ks(l, 0);
            }
            Step::MulPt => {
                let m = &messages(ps, 9)[8];
                n.c.ct = &c.ct * &ps.plaintext(m, l);
                n.c.m = ps.pmul(&c.m, m);
                n.c.w = ps.w_mulpt(&c.w, m);
            }
            Step::Down => {
                n.c.ct.switch_down().map_err(|e| e.to_string())?;
                n.c.w = ps.w_down(&c.w, 2, l, l + 1);
                n.c.level += 1;
            }
            Step::Wire => {
                n.c.ct = Ciphertext::from_bytes(&c.ct.to_bytes(), &ps.par).map_err(|e| e.to_string())?;
                if !same(&n.c.ct, &c.ct) {
                    return Err("read back differs".into());
                }
            }
        }
        Ok(n)
    }
    fn check(&self, s: &Held) -> Result<u64, String> {
        let g = &self.gs[s.g];
        verify(&g.ps, &s.c)?;
        if g.ps.ok(&(&s.c.w + &g.ps.t * g.kb()), s.c.level) {
            let ct = Arc::new(s.c.ct.clone());
            check_plain(g, &ct, &collective(g, &ct, 220, &[2, 0, 1])?, &s.c.m, s.c.level)?;
            return Ok(3);
        }
        Ok(0)
    }
}

fn refuse<T>(what: &str, f: impl FnOnce() -> fhe::Result<T>) -> Result<u64, String> {
    match guard(f) {
        Ok(Ok(_)) => Err(format!("{what} was accepted")),
        Ok(Err(_)) => Ok(1),
        Err(p) => Err(format!("{what} panicked instead of reporting an error: {p}")),
    }
}
struct World {
    g: Group,
    pk: PublicKey,
    ct: Vec<Arc<Ciphertext>>,
    three: Vec<Arc<Ciphertext>>,
    none: Arc<Ciphertext>,
}
impl World {
    fn new(name: &str, n: usize, t: u64, q: &[u64], var: usize) -> World {
        let base = Ps::new(name, n, bu(t), Mods::List(q), var, Secret::Random(3));
        let g = Group::new(&base, &[0, 0, 0], 5);
        let pk = g.pk(3);
        let m = messages(&g.ps, 10)[8].clone();
        let ct: Vec<_> = (0..base.levels()).map(|l| Arc::new(fresh_pk(&g.ps, &pk, &m, l, 3).ct)).collect();
        World { three: ct.iter().map(|c| Arc::new(c.as_ref() * c.as_ref())).collect(), none: Arc::new(Ciphertext::zero(&base.par)), pk, ct, g }
    }
    fn nl(&self) -> usize {
        self.g.ps.levels()
    }
    fn sks(&self, i: usize, ct: &Arc<Ciphertext>) -> SecretKeySwitchShare {
        SecretKeySwitchShare::new(&self.g.sks[i], &self.g.sks[0], ct.clone(), &mut rng(i as u64)).unwrap()
    }
    fn dec(&self, i: usize, ct: &Arc<Ciphertext>) -> DecryptionShare {
        DecryptionShare::new(&self.g.sks[i], ct, &mut rng(i as u64)).unwrap()
    }
    fn pks(&self, i: usize, ct: &Arc<Ciphertext>) -> PublicKeySwitchShare {
        PublicKeySwitchShare::new(&self.g.sks[i], &self.pk, ct, &mut rng(i as u64)).unwrap()
    }
    fn share(&self, i: usize, crp: &CommonRandomPoly) -> PublicKeyShare {
        PublicKeyShare::new(&self.g.sks[i], crp.clone(), &mut rng(i as u64)).unwrap()
    }
}
fn worlds() -> Vec<World> {
    let p62 = ntt_primes(62, 32, 5);
    let base = [p62[0], p62[1], p62[2]];
    vec![
        World::new("base", 8, 17, &base, 10),
        World::new("plaintext modulus", 8, 97, &base, 10),
        World::new("variance", 8, 17, &base, 9),
        World::new("degree", 16, 17, &base, 10),
        World::new("last modulus", 8, 17, &[base[0], base[1], p62[3]], 10),
        World::new("first modulus", 8, 17, &[p62[3], base[1], base[2]], 10),
        World::new("one more modulus", 8, 17, &[base[0], base[1], base[2], p62[4]], 10),
        World::new("one modulus less", 8, 17, &base[..2], 10),
        World::new("order of moduli", 8, 17, &[base[1], base[0], base[2]], 10),
    ]
}
/// a sequence of three with the stranger at the given position
fn mixed<T>(pos: usize, own: impl Fn(usize) -> T, other: T) -> Vec<T> {
    let mut v: Vec<T> = (0..2).map(own).collect();
    v.insert(pos, other);
    v
}
fn same_ring(a: &Ps, b: &Ps) -> bool {
    a.n == b.n && a.q == b.q
}
fn misuse(r: &Rep) {
    let ws = worlds();
    let pairs: Vec<(usize, usize)> = (0..ws.len()).flat_map(|a| (0..ws.len()).map(move |b| (a, b))).collect();
    r.suite("misuse", "all ordered pairs of nine parameter sets x all level pairs: foreign keys, common polynomials, ciphertexts in every argument; wrong part counts; shares of other parameters, levels, ciphertexts or runs at every position; no shares; failed shares", |su| {
        su.par(&pairs, |&(i, j)| {
            let (a, b) = (&ws[i], &ws[j]);
            let mut n = 0;
            su.case(&format!("{} with {}", a.g.ps.name, b.g.ps.name), || {
                let par = &a.g.ps.par;
                let crp = CommonRandomPoly::new(par, &mut rng(1)).unwrap();
                if i == j {
                    let crp2 = CommonRandomPoly::new(par, &mut rng(2)).unwrap();
                    n += refuse("no public-key shares", || PublicKey::from_shares(Vec::<PublicKeyShare>::new()))?;
                    n += refuse("no switching shares", || <Ciphertext as Aggregate<SecretKeySwitchShare>>::from_shares(vec![]))?;
                    n += refuse("no public switching shares", || <Ciphertext as Aggregate<PublicKeySwitchShare>>::from_shares(vec![]))?;
                    n += refuse("no decryption shares", || <Plaintext as Aggregate<DecryptionShare>>::from_shares(vec![]))?;
                    n += refuse("no fallible shares", || Vec::<fhe::Result<DecryptionShare>>::new().into_iter().aggregate::<Plaintext>())?;
                    for pos in 0..3 {
                        n += refuse("shares of two common polynomials", || PublicKey::from_shares(mixed(pos, |k| a.share(k, &crp), a.share(2, &crp2))))?;
                        for l in 0..a.nl() {
                            let bad = || DecryptionShare::new(&a.g.sks[0], &a.three[l], &mut rng(1));
                            n += refuse("a failed decryption share", || mixed(pos, |k| Ok(a.dec(k, &a.ct[l])), bad()).into_iter().aggregate::<Plaintext>())?;
                        }
                        n += refuse("a failed public-key share", || mixed(pos, |k| Ok(a.share(k, &crp)), Err(fhe::Error::Multiparty(fhe::MultipartyError::NoShares))).into_iter().aggregate::<PublicKey>())?;
                    }
                    for l in 0..a.nl() + 2 {
                        match CommonRandomPoly::new_leveled(par, l, &mut rng(4)) {
                            Ok(_) if l >= a.nl() => return Err(format!("common polynomial at level {l}")),
                            Err(e) if l < a.nl() => return Err(format!("no common polynomial at level {l}: {e}")),
                            Ok(c) if l > 0 => n += refuse("a common polynomial of another level", || PublicKeyShare::new(&a.g.sks[0], c.clone(), &mut rng(1)))?,
                            _ => {}
                        }
                    }
                    for l in 0..a.nl() {
                        for (what, c) in [("three parts", &a.three[l]), ("no parts", &a.none)] {
                            n += refuse(&format!("switching {what}"), || SecretKeySwitchShare::new(&a.g.sks[0], &a.g.sks[1], c.clone(), &mut rng(1)))?;
                            n += refuse(&format!("decryption of {what}"), || DecryptionShare::new(&a.g.sks[0], c, &mut rng(1)))?;
                            n += refuse(&format!("public switching of {what}"), || PublicKeySwitchShare::new(&a.g.sks[0], &a.pk, c, &mut rng(1)))?;
                        }
                        // another ciphertext of the same level
                        let other = Arc::new(-a.ct[l].as_ref());
                        for pos in 0..3 {
                            n += refuse("switching shares of two ciphertexts", || Ciphertext::from_shares(mixed(pos, |k| a.sks(k, &a.ct[l]), a.sks(2, &other))))?;
                            n += refuse("public switching shares of two ciphertexts", || Ciphertext::from_shares(mixed(pos, |k| a.pks(k, &a.ct[l]), a.pks(2, &other))))?;
                            n += refuse("decryption shares of two ciphertexts", || Plaintext::from_shares(mixed(pos, |k| a.dec(k, &a.ct[l]), a.dec(2, &other))))?;
                            for k in (0..a.nl()).filter(|k| *k != l) {
                                n += refuse("switching shares of two levels", || Ciphertext::from_shares(mixed(pos, |k| a.sks(k, &a.ct[l]), a.sks(2, &a.ct[k]))))?;
                                n += refuse("public switching shares of two levels", || Ciphertext::from_shares(mixed(pos, |k| a.pks(k, &a.ct[l]), a.pks(2, &a.ct[k]))))?;
                                n += refuse("decryption shares of two levels", || Plaintext::from_shares(mixed(pos, |k| a.dec(k, &a.ct[l]), a.dec(2, &a.ct[k]))))?;
                            }
                        }
                        // the same ciphertext in separate allocations is the same ciphertext
                        let twin = Arc::new(a.ct[l].as_ref().clone());
                        Plaintext::from_shares(vec![a.dec(0, &a.ct[l]), a.dec(1, &twin), a.dec(2, &a.ct[l])]).map_err(|e| format!("shares of equal ciphertexts refused: {e}"))?;
                    }
                    su.outcome(h64(&(i, j)));
                    return Ok(n);
                }
                if !same_ring(&a.g.ps, &b.g.ps) {
                    n += refuse("a common polynomial of other parameters", || PublicKeyShare::new(&b.g.sks[0], crp.clone(), &mut rng(1)))?;
                }
                let crpb = CommonRandomPoly::new(&b.g.ps.par, &mut rng(1)).unwrap();
                for pos in 0..3 {
                    n += refuse("public-key shares of two parameter sets", || PublicKey::from_shares(mixed(pos, |k| a.share(k, &crp), b.share(2, &crpb))))?;
                }
                for la in 0..a.nl() {
                    let ct = &a.ct[la];
                    n += refuse("a foreign output key", || SecretKeySwitchShare::new(&a.g.sks[0], &b.g.sks[0], ct.clone(), &mut rng(1)))?;
                    n += refuse("a foreign input key", || SecretKeySwitchShare::new(&b.g.sks[0], &a.g.sks[0], ct.clone(), &mut rng(1)))?;
                    n += refuse("a foreign ciphertext", || SecretKeySwitchShare::new(&b.g.sks[0], &b.g.sks[1], ct.clone(), &mut rng(1)))?;
                    n += refuse("decryption of a foreign ciphertext", || DecryptionShare::new(&b.g.sks[0], ct, &mut rng(1)))?;
                    n += refuse("public switching with a foreign secret", || PublicKeySwitchShare::new(&b.g.sks[0], &a.pk, ct, &mut rng(1)))?;
                    n += refuse("public switching to a foreign key", || PublicKeySwitchShare::new(&a.g.sks[0], &b.pk, ct, &mut rng(1)))?;
                    n += refuse("public switching of a foreign ciphertext", || PublicKeySwitchShare::new(&b.g.sks[0], &b.pk, ct, &mut rng(1)))?;
                    for lb in 0..b.nl() {
                        for pos in 0..3 {
                            n += refuse("switching shares of two parameter sets", || Ciphertext::from_shares(mixed(pos, |k| a.sks(k, ct), b.sks(2, &b.ct[lb]))))?;
                            n += refuse("public switching shares of two parameter sets", || Ciphertext::from_shares(mixed(pos, |k| a.pks(k, ct), b.pks(2, &b.ct[lb]))))?;
                            n += refuse("decryption shares of two parameter sets", || Plaintext::from_shares(mixed(pos, |k| a.dec(k, ct), b.dec(2, &b.ct[lb]))))?;
                        }
                    }
                }
                su.outcome(h64(&(i, j)));
                Ok(n)
            });
        });
    });
}

// ---------------------------------------------------------------- C02
type R1A = RelinKeyShare<R1Aggregated>;
fn rk_proto(k: &RelinearizationKey) -> proto::KeySwitchingKey {
    proto::RelinearizationKey::decode(k.to_bytes().as_slice()).unwrap().ksk.unwrap()
}
/// Errors of the components: c0_i + c1_i s - g_i s^2, centred.
fn rk_errors(ps: &Ps, k: &RelinearizationKey) -> Result<Vec<BigInt>, String> {
    let p = rk_proto(k);
    let ctx = ps.par.context_at_level(0).unwrap();
    let q = ps.qq(0);
    if p.c0.len() != ps.q.len() || p.c1.len() != ps.q.len() || p.log_base != 0 || p.ciphertext_level != 0 || p.ksk_level != 0 || !p.seed.is_empty() {
        return Err(format!("the joint key has {} and {} components at levels {}/{} with base {}", p.c0.len(), p.c1.len(), p.ciphertext_level, p.ksk_level, p.log_base));
    }
    let mut out = vec![];
    for i in 0..ps.q.len() {
        let get = |b: &[u8]| -> Result<Vec<Vec<u64>>, String> {
            use fhe_traits::DeserializeWithContext;
            Ok(coeffs(&Poly::<NttShoup>::from_bytes(b, ctx).map_err(|e| e.to_string())?.into_ntt().into_power_basis()))
        };
        let (c0, c1) = (get(&p.c0[i])?, get(&p.c1[i])?);
        // the i-th Garner constant is 1 modulo q_i and 0 modulo the others
        let rows: Vec<Vec<u64>> = ps
            .q
            .iter()
            .enumerate()
            .map(|(r, &m)| {
                let sv: Vec<u64> = ps.s.iter().map(|x| x.rem_euclid(m as i64) as u64).collect();
                let cs = negmul(&c1[r], &sv, m);
                let s2 = if r == i { negmul(&sv, &sv, m) } else { vec![0; ps.n] };
                (0..ps.n)
                    .map(|j| {
                        let g = s2[j];
                        ((c0[r][j] as u128 + cs[j] as u128 + (m - g) as u128) % m as u128) as u64
                    })
                    .collect()
            })
            .collect();
        for j in 0..ps.n {
            out.push(centre(&crt(&rows.iter().map(|r| r[j]).collect::<Vec<_>>(), &ps.q), &q));
        }
    }
    Ok(out)
}
fn gens<'a>(g: &'a Group, crp: &'a [CommonRandomPoly], seed: u64) -> Result<Vec<RelinKeyGenerator<'a, 'a>>, String> {
    g.sks.iter().enumerate().map(|(i, s)| RelinKeyGenerator::new(s, crp, &mut rng(seed + i as u64)).map_err(|e| format!("generator {i}: {e}"))).collect()
}
fn crps(par: &Arc<BfvParameters>, seed: u64) -> Vec<CommonRandomPoly> {
    CommonRandomPoly::new_vec(par, &mut rng(seed)).unwrap()
}
fn w_joint(g: &Group) -> (BigUint, BigUint) {
    // component error: s E1 + E3 + u E2 + E4, all sums over the parties
    let e = bu(2 * g.ps.n as u64) * g.kb() * g.kb() + bu(2) * g.kb();
    let mut w = BigUint::zero();
    for q in &g.ps.q {
        w += bu(g.ps.n as u64) * *q * &e;
    }
    (e, w * &g.ps.t)
}
/// The joint key does what a single-party key does.
fn use_rk(g: &Group, rk: &RelinearizationKey, pk: &PublicKey, full: bool) -> Result<u64, String> {
    let ps = &g.ps;
    let (bound, w_rk) = w_joint(g);
    let errs = rk_errors(ps, rk)?;
    let e = errs.iter().map(|x| x.abs().to_biguint().unwrap()).max().unwrap();
    if e > bound {
        return Err(format!("the joint key has error {e}, above the worst case {bound}"));
    }
    let back = RelinearizationKey::from_bytes(&rk.to_bytes(), &ps.par).map_err(|e| format!("reading the joint key: {e}"))?;
    if back != *rk {
        return Err("the joint key read back differs".into());
    }
    let ms = messages(ps, 10);
    let mut t = 0;
    let pairs: Vec<(usize, usize)> = if full { vec![(8, 9), (1, 1), (5, 8), (2, 9), (6, 6)] } else { vec![(8, 9)] };
    for (x, y) in pairs {
        let (a, b) = (enc_at(ps, g, pk, &ms[x], 0, 70), enc_at(ps, g, pk, &ms[y], 0, 71));
        let w = ps.w_mul((&a.w, 2), (&b.w, 2), 0) + &w_rk;
        let m = ps.pmul(&a.m, &b.m);
        for k in [rk, &back] {
            let mut ct = &a.ct * &b.ct;
            k.relinearizes(&mut ct).map_err(|e| format!("relinearisation: {e}"))?;
            let c = Cm { ct, m: m.clone(), parts: 2, level: 0, w: w.clone() };
            verify(ps, &c).map_err(|e| format!("relinearised: {e}"))?;
            if ps.ok(&(&w + &ps.t * g.kb()), 0) {
                let ct = Arc::new(c.ct);
                check_plain(g, &ct, &collective(g, &ct, 5, &(0..g.k).collect::<Vec<_>>())?, &m, 0)?;
            }
            let mut mu = Multiplicator::default(k).map_err(|e| format!("multiplicator: {e}"))?;
            let d = mu.multiply(&a.ct, &b.ct).map_err(|e| format!("multiplication: {e}"))?;
            verify(ps, &Cm { ct: d, m: m.clone(), parts: 2, level: 0, w: &w * 2u32 }).map_err(|e| format!("multiplicator: {e}"))?;
            mu.enable_mod_switching().map_err(|e| format!("modulus switching: {e}"))?;
            let d = mu.multiply(&a.ct, &b.ct).map_err(|e| format!("multiplication: {e}"))?;
            let w2 = ps.w_down(&(&w * 2u32), 2, 0, 1);
            verify(ps, &Cm { ct: d, m: m.clone(), parts: 2, level: 1, w: w2 }).map_err(|e| format!("switched: {e}"))?;
            t += 3;
        }
    }
    Ok(t)
}

pub fn c02(r: &Rep) {
    // every shape and degree
    shapes(r, "joint-relinearisation", &|ps, l, k, _| {
        if l != 0 || k != 0 {
            return Ok(0);
        }
        let g = Group::new(ps, &[0, 2, 0], 1);
        let crp = crps(&ps.par, 3);
        if ps.levels() == 1 {
            return match RelinKeyGenerator::new(&g.sks[0], &crp, &mut rng(1)) {
                Ok(_) => Err("a generator for a single modulus".into()),
                Err(_) => Ok(1),
            };
        }
        let rkg = gens(&g, &crp, 100)?;
        let r1: Vec<_> = rkg.iter().map(|x| x.round_1(&mut rng(7)).map_err(|e| format!("round 1: {e}"))).collect::<Result<_, String>>()?;
        let agg: Arc<R1A> = Arc::new(RelinKeyShare::from_shares(r1).map_err(|e| format!("round 1 aggregation: {e}"))?);
        let r2: Vec<_> = rkg.iter().map(|x| x.round_2(&agg, &mut rng(8)).map_err(|e| format!("round 2: {e}"))).collect::<Result<_, String>>()?;
        let rk = RelinearizationKey::from_shares(r2).map_err(|e| format!("round 2 aggregation: {e}"))?;
        use_rk(&g, &rk, &g.pk(7), ps.n <= 16)
    });
    let mut sets = vec![p0 as fn() -> Ps, p1, p3, p4, p6, p8];
    if r.thorough {
        sets.extend([p2 as fn() -> Ps, p7, p9]);
    }
    for f in sets {
        let base = f();
        let desc = format!("N={} t={} moduli {:?}", base.n, base.t, base.q);
        let kmax = if r.thorough { 4 } else { 3 };
        let kinds: Vec<Vec<usize>> = kind_sets(kmax, if r.thorough { 4 } else { 3 }).into_iter().chain([5usize, 8].iter().map(|&k| (0..k).map(|i| i % 4).collect())).collect();
        let gs: Vec<Group> = kinds.iter().map(|k| Group::new(&base, k, 6)).collect();
        r.suite(&format!("values-{}", base.name), &format!("share kinds for 1..={kmax}, 5 and 8 parties: exact component errors, products relinearised directly and through multiplicators, also after serialisation, collectively decrypted; {desc}"), |su| {
            su.par(&gs, |g| {
                su.case(&format!("{} parties {:?}", g.k, g.s.iter().map(|s| s[0]).collect::<Vec<_>>()), || {
                    let par = &g.ps.par;
                    let mut t = 0;
                    let pk = g.pk(7);
                    let mut seen: Vec<RelinearizationKey> = vec![];
                    for (cs, us) in [(1u64, 100u64), (2, 300), (1, 200)] {
                        let crp = crps(par, cs);
                        let rkg = gens(g, &crp, us)?;
                        let r1: Vec<_> = rkg.iter().enumerate().map(|(i, x)| x.round_1(&mut rng(us + 20 + i as u64)).map_err(|e| format!("round 1: {e}"))).collect::<Result<_, String>>()?;
                        let agg: Arc<R1A> = Arc::new(RelinKeyShare::from_shares(r1).map_err(|e| format!("round 1 aggregation: {e}"))?);
                        let r2: Vec<_> = rkg.iter().enumerate().map(|(i, x)| x.round_2(&agg, &mut rng(us + 40 + i as u64)).map_err(|e| format!("round 2: {e}"))).collect::<Result<_, String>>()?;
                        let rk = RelinearizationKey::from_shares(r2).map_err(|e| format!("round 2 aggregation: {e}"))?;
                        t += use_rk(g, &rk, &pk, cs == 1 && us == 100)?;
                        if seen.iter().any(|x| *x == rk || rk_proto(x).c0[0] == rk_proto(&rk).c0[0]) {
                            return Err("different random streams give the same key".into());
                        }
                        seen.push(rk);
                    }
                    su.outcome(h64(&(g.k, &g.s)));
                    Ok(t)
                });
            });
        });
        let g3 = Group::new(&base, &[0, 2, 0], 6);
        let g2 = Group::new(&base, &[0, 0], 6);
        let g4 = Group::new(&base, &[0, 2, 1, 0], 6);
        r.suite(&format!("orders-{}", base.name), &format!("all orders of the shares in both rounds (every pair of permutations of 2, 3{} parties), and all interleavings of the steps of {} parties; {desc}", if r.thorough { ", 4" } else { "" }, if r.thorough { 3 } else { 2 }), |su| {
            for g in [&g2, &g3, &g4].into_iter().take(if r.thorough { 3 } else { 2 }) {
                let pk = g.pk(7);
                let crp = crps(&g.ps.par, 1);
                let run = |o1: &[usize], o2: &[usize]| -> Result<RelinearizationKey, String> {
                    let rkg = gens(g, &crp, 100)?;
                    let agg: R1A = o1.iter().map(|&i| rkg[i].round_1(&mut rng(120 + i as u64))).aggregate().map_err(|e| format!("round 1: {e}"))?;
                    let agg = Arc::new(agg);
                    o2.iter().map(|&i| rkg[i].round_2(&agg, &mut rng(140 + i as u64))).aggregate().map_err(|e| format!("round 2: {e}"))
                };
                let id: Vec<usize> = (0..g.k).collect();
                let want = match run(&id, &id) {
                    Ok(x) => x,
                    Err(e) => {
                        su.fail("in order", &e);
                        return;
                    }
                };
                su.case(&format!("{} parties", g.k), || use_rk(g, &want, &pk, true));
                let ps = permutations(g.k);
                let items: Vec<(usize, usize)> = (0..ps.len()).flat_map(|a| (0..ps.len()).map(move |b| (a, b))).collect();
                su.par(&items, |&(a, b)| {
                    su.case(&format!("{} parties orders {:?} {:?}", g.k, ps[a], ps[b]), || {
                        let k = run(&ps[a], &ps[b])?;
                        if k != want {
                            return Err("the order of the shares changes the key".into());
                        }
                        // every party adds up the first round itself, in its own order
                        let rkg = gens(g, &crp, 100)?;
                        let r1: Vec<_> = (0..g.k).map(|i| rkg[i].round_1(&mut rng(120 + i as u64)).map_err(|e| format!("round 1: {e}"))).collect::<Result<_, String>>()?;
                        let mut r2 = vec![];
                        for i in 0..g.k {
                            let o = &ps[(a + i * (b + 1)) % ps.len()];
                            let own: Arc<R1A> = Arc::new(R1A::from_shares(Hint(pick(&r1, o).into_iter(), (a + i) % HINTS)).map_err(|e| format!("round 1: {e}"))?);
                            r2.push(rkg[i].round_2(&own, &mut rng(140 + i as u64)).map_err(|e| format!("round 2: {e}"))?);
                        }
                        let k = RelinearizationKey::from_shares(Hint(pick(&r2, &ps[b]).into_iter(), b % HINTS)).map_err(|e| format!("round 2 with own aggregates: {e}"))?;
                        if k != want {
                            return Err("adding up the first round separately changes the key".into());
                        }
                        Ok(2 * g.k as u64)
                    });
                });
            }
            // interleavings: every party performs setup, round 1, (barrier) round 2; a repeated round 1 may be discarded
            let g = if r.thorough { &g3 } else { &g2 };
            let crp = crps(&g.ps.par, 1);
            let mut keys: Vec<RelinearizationKey> = vec![];
            for il in interleavings(g.k, 3) {
                su.case(&format!("interleaving {il:?}"), || {
                    let mut rkg: Vec<Option<RelinKeyGenerator>> = (0..g.k).map(|_| None).collect();
                    let mut sh = vec![];
                    let mut step = vec![0; g.k];
                    for &p in &il {
                        match step[p] {
                            0 => rkg[p] = Some(RelinKeyGenerator::new(&g.sks[p], &crp, &mut rng(100 + p as u64)).map_err(|e| e.to_string())?),
                            1 => {
                                rkg[p].as_ref().unwrap().round_1(&mut rng(99)).map_err(|e| e.to_string())?;
                            }
                            _ => sh.push(rkg[p].as_ref().unwrap().round_1(&mut rng(120 + p as u64)).map_err(|e| e.to_string())?),
                        }
                        step[p] += 1;
                    }
                    let agg: Arc<R1A> = Arc::new(RelinKeyShare::from_shares(sh).map_err(|e| e.to_string())?);
                    let mut s2 = vec![];
                    for &p in il.iter().rev() {
                        if step[p] == 3 {
                            s2.push(rkg[p].as_ref().unwrap().round_2(&agg, &mut rng(140 + p as u64)).map_err(|e| e.to_string())?);
                        }
                        step[p] = 0;
                    }
                    let k = RelinearizationKey::from_shares(s2).map_err(|e| e.to_string())?;
                    if keys.first().is_some_and(|x| *x != k) {
                        return Err("the interleaving of the parties' steps changes the key".into());
                    }
                    keys.push(k);
                    Ok(il.len() as u64)
                });
            }
        });
    }
    rk_misuse(r);
}
/// all interleavings of k sequences of the given length
fn interleavings(k: usize, len: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for p in 0..left.len() {
            if left[p] > 0 {
                left[p] -= 1;
                cur.push(p);
                go(left, cur, out);
                cur.pop();
                left[p] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![len; k], &mut vec![], &mut out);
    out
}
fn rk_misuse(r: &Rep) {
    let ws = worlds();
    let pairs: Vec<(usize, usize)> = (0..ws.len()).flat_map(|a| (0..ws.len()).map(move |b| (a, b))).collect();
    r.suite("misuse", "all ordered pairs of nine parameter sets: common polynomials of other parameters or levels at every position, wrong counts, aggregates and shares of other parameters or runs at every position, no shares, parameters with a single modulus", |su| {
        su.case("one modulus", || {
            let ps = p5();
            let mut n = 0;
            for c in 0..3 {
                let crp: Vec<_> = (0..c).map(|i| CommonRandomPoly::new(&ps.par, &mut rng(i)).unwrap()).collect();
                n += refuse("a single modulus", || RelinKeyGenerator::new(&ps.sk, &crp, &mut rng(1)).map(|_| ()))?;
            }
            Ok(n)
        });
        su.par(&pairs, |&(i, j)| {
            let (a, b) = (&ws[i], &ws[j]);
            su.case(&format!("{} with {}", a.g.ps.name, b.g.ps.name), || {
                let mut n = 0;
                let (ca, cb) = (crps(&a.g.ps.par, 1), crps(&b.g.ps.par, if i == j { 2 } else { 1 }));
                let (ga, gb) = (gens(&a.g, &ca, 1)?, gens(&b.g, &cb, 11)?);
                let r1 = |g: &RelinKeyGenerator, s| g.round_1(&mut rng(s)).unwrap();
                let agg = |g: &[RelinKeyGenerator]| -> Arc<R1A> { Arc::new(RelinKeyShare::from_shares(g.iter().map(|x| r1(x, 3)).collect::<Vec<_>>()).unwrap()) };
                let (aa, ab) = (agg(&ga), agg(&gb));
                let r2 = |g: &RelinKeyGenerator, a: &Arc<R1A>| g.round_2(a, &mut rng(4)).unwrap();
                if i == j {
                    for c in 0..a.g.ps.q.len() + 3 {
                        let v: Vec<_> = (0..c).map(|k| CommonRandomPoly::new(&a.g.ps.par, &mut rng(k as u64)).unwrap()).collect();
                        if c != a.g.ps.q.len() {
                            n += refuse(&format!("{c} common polynomials"), || RelinKeyGenerator::new(&a.g.sks[0], &v, &mut rng(1)).map(|_| ()))?;
                        }
                    }
                    for l in 1..a.nl() {
                        for pos in 0..ca.len() {
                            let mut v = ca.clone();
                            v[pos] = CommonRandomPoly::new_leveled(&a.g.ps.par, l, &mut rng(1)).unwrap();
                            n += refuse("a common polynomial of another level", || RelinKeyGenerator::new(&a.g.sks[0], &v, &mut rng(1)).and_then(|g| g.round_1(&mut rng(2)).map(|_| ())))?;
                        }
                    }
                    n += refuse("no shares in round 1", || R1A::from_shares(Vec::<RelinKeyShare>::new()))?;
                    n += refuse("no shares in round 2", || RelinearizationKey::from_shares(Vec::<RelinKeyShare<fhe::mbfv::round::R2>>::new()))?;
                    
                    for pos in 0..3 {
                        n += refuse("a failed share in round 1", || mixed(pos, |k| Ok(r1(&ga[k], 3)), Err(fhe::Error::Multiparty(fhe::MultipartyError::NoShares))).into_iter().aggregate::<R1A>())?;
                        n += refuse("a failed share in round 2", || mixed(pos, |k| Ok(r2(&ga[k], &aa)), Err(fhe::Error::Multiparty(fhe::MultipartyError::NoShares))).into_iter().aggregate::<RelinearizationKey>())?;
                    }
                } else {
                    if !same_ring(&a.g.ps, &b.g.ps) {
                        for pos in 0..ca.len() {
                            let mut v = ca.clone();
                            v[pos] = cb[pos % cb.len()].clone();
                            n += refuse("a common polynomial of other parameters", || RelinKeyGenerator::new(&a.g.sks[0], &v, &mut rng(1)).and_then(|g| g.round_1(&mut rng(2)).map(|_| ())))?;
                        }
                    }
                    for pos in 0..3 {
                        n += refuse("round 1 shares of two parameter sets", || R1A::from_shares(mixed(pos, |k| r1(&ga[k], 3), r1(&gb[2], 3))))?;
                    }
                    n += refuse("a round 1 aggregate of other parameters", || ga[0].round_2(&ab, &mut rng(1)))?;
                }
                // round 2 shares that continue different first rounds
                for pos in 0..3 {
                    n += refuse("round 2 shares of two runs", || RelinearizationKey::from_shares(mixed(pos, |k| r2(&ga[k], &aa), r2(&gb[2], &ab))))?;
                }
                // equal aggregates in separate allocations are one run
                let twin = Arc::new(aa.as_ref().clone());
                RelinearizationKey::from_shares(vec![r2(&ga[0], &aa), r2(&ga[1], &twin), r2(&ga[2], &aa)]).map_err(|e| format!("shares of one run refused: {e}"))?;
                su.outcome(h64(&(i, j)));
                Ok(n)
            });
        });
    });
}
