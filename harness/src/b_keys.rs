//! B13: keys and RGSW ciphertexts read back are interchangeable with the originals.
use crate::b_core::*;
use crate::b_ops::*;
use crate::core::*;
use fhe::bfv::{BfvParameters, Ciphertext, EvaluationKey, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe_traits::{Deserialize, DeserializeParametrized, FheDecrypter, FheEncrypter, Serialize};
use std::sync::Arc;

type Rows = Vec<Vec<u64>>;

/// Everything an evaluation key can do with the ciphertext, as residues (None for refusals).
pub fn ek_behaviour(key: &EvaluationKey, ct: &Ciphertext, n: usize) -> Vec<Option<Rows>> {
    let mut v = vec![];
    let mut add = |r: fhe::Result<Ciphertext>| v.push(r.ok().map(|c| ct_rows(&c)));
    add(key.rotates_rows(ct));
    add(key.computes_inner_sum(ct));
    for i in 0..n.min(33) + 1 {
        add(key.rotates_columns_by(ct, i));
    }
    for s in 1..=n.min(32) {
        match key.expands(ct, s) {
            Ok(o) => o.into_iter().for_each(|c| add(Ok(c))),
            Err(e) => add(Err(e)),
        }
    }
    let mut bits = vec![key.supports_inner_sum() as u64, key.supports_row_rotation() as u64];
    bits.extend((0..n + 2).map(|i| key.supports_column_rotation_by(i) as u64));
    bits.extend((0..n.ilog2() as usize + 2).map(|i| key.supports_expansion(i) as u64));
    v.push(Some(vec![bits]));
    v
}
fn again<T: Serialize + DeserializeParametrized<Parameters = BfvParameters> + PartialEq>(x: &T, par: &Arc<BfvParameters>, what: &str) -> Result<T, String>
where
    <T as DeserializeParametrized>::Error: std::fmt::Display,
{
    let b = x.to_bytes();
    let y = T::from_bytes(&b, par).map_err(|e| format!("{what}: own encoding rejected: {e}"))?;
    if y != *x {
        return Err(format!("{what}: read back differs"));
    }
    let z = T::from_bytes(&y.to_bytes(), par).map_err(|e| format!("{what}: second encoding rejected: {e}"))?;
    if z != *x {
        return Err(format!("{what}: read back twice differs"));
    }
    Ok(z)
}
/// the object under an equal parameter object that was itself serialised
fn moved<T: Serialize + DeserializeParametrized<Parameters = BfvParameters>>(x: &T, par: &Arc<BfvParameters>, what: &str) -> Result<T, String>
where
    <T as DeserializeParametrized>::Error: std::fmt::Display,
{
    T::from_bytes(&x.to_bytes(), par).map_err(|e| format!("{what}: rejected under equal parameters: {e}"))
}
pub fn sk_encrypts(sk: &SecretKey, pt: &fhe::bfv::Plaintext, seed: u64) -> fhe::Result<Ciphertext> {
    <SecretKey as FheEncrypter<fhe::bfv::Plaintext, Ciphertext>>::try_encrypt(sk, pt, &mut rng(seed))
}

pub fn b13(r: &Rep) {
    // every shape and degree: every kind of key, used before and after it was read back
    shapes(r, "keys", &|ps, l, k, c| {
        let n = ps.n;
        let mut z = 0;
        let same_ct = |what: &str, a: fhe::Result<Ciphertext>, b: fhe::Result<Ciphertext>| -> Result<u64, String> {
            let (a, b) = (er(a, what)?, er(b, what)?);
            if ct_rows(&a) != ct_rows(&b) {
                return Err(format!("{what}: the key read back gives another result"));
            }
            Ok(1)
        };
        if k == 0 {
            let sk2 = again(&ps.sk, &ps.par, "secret key")?;
            if sk_coeffs(&sk2) != ps.s {
                return Err("the secret key read back differs".into());
            }
            for (what, pk) in [("public key", PublicKey::new(&ps.sk, &mut rng(3))), ("seedless public key", ps.pk(4, 3, false))] {
                let pk2 = again(&pk, &ps.par, what)?;
                let pt = ps.plaintext(&c.m, l);
                let e = |p: &PublicKey| <PublicKey as FheEncrypter<fhe::bfv::Plaintext, Ciphertext>>::try_encrypt(p, &pt, &mut rng(7));
                z += same_ct(what, e(&pk), e(&pk2))?;
            }
        }
        if k == l {
            let g = er(rgsw(ps, &messages(ps, 10)[9], l, 6), "RGSW encryption")?;
            let g2 = again(&g, &ps.par, "RGSW ciphertext")?;
            z += same_ct("external product", Ok(&c.ct * &g), Ok(&c.ct * &g2))?;
        }
        if ps.ql(k).len() > 1 {
            let rk = er(RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(9)), "relinearisation key")?;
            let rk2 = again(&rk, &ps.par, "relinearisation key")?;
            let prod = &c.ct * &c.ct;
            let f = |x: &RelinearizationKey| {
                let mut p = prod.clone();
                x.relinearizes(&mut p).map(|_| p)
            };
            z += same_ct("relinearisation", f(&rk), f(&rk2))?;
        }
        let key = ek(ps, l, k, |b| {
            b.enable_inner_sum().unwrap().enable_column_rotation(n / 2 - 1).unwrap().enable_expansion(2).unwrap();
        });
        let key2 = again(&key, &ps.par, "evaluation key")?;
        z += same_ct("row rotation", key.rotates_rows(&c.ct), key2.rotates_rows(&c.ct))?;
        z += same_ct("column rotation", key.rotates_columns_by(&c.ct, n / 2 - 1), key2.rotates_columns_by(&c.ct, n / 2 - 1))?;
        z += same_ct("inner sum", key.computes_inner_sum(&c.ct), key2.computes_inner_sum(&c.ct))?;
        let (a, b) = (er(key.expands(&c.ct, 3), "expansion")?, er(key2.expands(&c.ct, 3), "expansion")?);
        for (x, y) in a.into_iter().zip(b) {
            z += same_ct("expansion", Ok(x), Ok(y))?;
        }
        Ok(z)
    });
    for f in [p0 as fn() -> Ps, p1, p2, p3, p4, p5, p6, p7, p8, p9] {
        let ps = f();
        let n = ps.n;
        let par2 = Arc::new(BfvParameters::try_deserialize(&ps.par.to_bytes()).unwrap());
        let bound = format!("every key object at every admissible level pair, read back once and twice, under the same and under a separately read equal parameter object; all supported operations compared residue for residue; N={} t={} moduli {:?}", ps.n, ps.t, ps.q);
        r.suite(&format!("secret-public-{}", ps.name), &bound, |su| {
            let mut sks: Vec<(String, SecretKey)> = (0..if r.thorough { 64 } else { 16 }).map(|i| (format!("random {i}"), SecretKey::random(&ps.par, &mut rng(i)))).collect();
            let b = ps.b as i64;
            sks.push(("bound".into(), sk_from(&ps.par, &vec![b; n])));
            sks.push(("-bound".into(), sk_from(&ps.par, &vec![-b; n])));
            sks.push(("zero".into(), sk_from(&ps.par, &vec![0; n])));
            for i in 0..n {
                let mut v = vec![0; n];
                v[i] = if i % 2 == 0 { 1 } else { -b };
                sks.push((format!("unit {i}"), sk_from(&ps.par, &v)));
            }
            let ms = messages(&ps, 12);
            let idx: Vec<usize> = (0..sks.len()).collect();
            su.par(&idx, |&i| {
                let (name, sk) = &sks[i];
                su.case(&format!("secret key {name}"), || {
                    let k2 = again(sk, &ps.par, "secret key")?;
                    let k3 = moved(sk, &par2, "secret key")?;
                    if sk_coeffs(sk) != sk_coeffs(&k2) || sk_coeffs(sk) != sk_coeffs(&k3) {
                        return Err("coefficients differ".into());
                    }
                    for l in lv(&ps) {
                        let pt = ps.plaintext(&ms[10], l);
                        let ct = er(sk_encrypts(sk, &pt, 5), "encryption")?;
                        let ct2 = er(sk_encrypts(&k2, &pt, 5), "encryption")?;
                        let d = |k: &SecretKey, c: &Ciphertext| er(k.try_decrypt(c), "decryption").and_then(|p| pt_coeffs(&ps, &p));
                        let want = d(sk, &ct)?;
                        if d(&k2, &ct)? != want || d(sk, &ct2)? != want || d(&k3, &moved(&ct, &par2, "ciphertext")?)? != want {
                            return Err(format!("level {l}: keys are not interchangeable"));
                        }
                        let g = |k: &SecretKey| -> Result<RGSWCiphertext, String> { er(<SecretKey as FheEncrypter<_, RGSWCiphertext>>::try_encrypt(k, &pt, &mut rng(9)), "RGSW") };
                        if g(sk)? != g(&k2)? {
                            return Err(format!("level {l}: RGSW encryptions differ"));
                        }
                        let nn = |k: &SecretKey| unsafe { k.measure_noise(&ct) }.map_err(|e| e.to_string());
                        if nn(sk)? != nn(&k2)? {
                            return Err("measured noise differs".into());
                        }
                    }
                    if ps.q.len() > 1 && RelinearizationKey::new(sk, &mut rng(8)).ok() != RelinearizationKey::new(&k2, &mut rng(8)).ok() {
                        return Err("relinearisation keys differ".into());
                    }
                    su.outcome(h64(name));
                    Ok(1)
                });
            });
            let mut pks: Vec<(String, PublicKey)> = vec![];
            for (i, (name, sk)) in sks.iter().enumerate().take(6) {
                pks.push((format!("new of {name}"), PublicKey::new(sk, &mut rng(70 + i as u64))));
            }
            for k in 0..4 {
                pks.push((format!("known {k}"), ps.pk(30 + k as u64, k, k % 2 == 0)));
            }
            let idx: Vec<usize> = (0..pks.len()).collect();
            su.par(&idx, |&i| {
                let (name, pk) = &pks[i];
                su.case(&format!("public key {name}"), || {
                    let k2 = again(pk, &ps.par, "public key")?;
                    let k3 = moved(pk, &par2, "public key")?;
                    for l in lv(&ps) {
                        for (j, m) in ms.iter().enumerate().take(4) {
                            let pt = ps.plaintext(m, l);
                            let a: Ciphertext = er(pk.try_encrypt(&pt, &mut rng(j as u64)), "encryption")?;
                            let b: Ciphertext = er(k2.try_encrypt(&pt, &mut rng(j as u64)), "encryption")?;
                            if !same(&a, &b) {
                                return Err(format!("level {l}: encryptions differ"));
                            }
                            let ps2 = Ps::with("copy", par2.clone(), ps.var as usize, Secret::Sparse);
                            let c: Ciphertext = er(k3.try_encrypt(&ps2.plaintext(m, l), &mut rng(j as u64)), "encryption")?;
                            if ct_rows(&a) != ct_rows(&c) {
                                return Err(format!("level {l}: encryptions under equal parameters differ"));
                            }
                        }
                    }
                    su.outcome(h64(name));
                    Ok(1)
                });
            });
        });
        r.suite(&format!("evaluation-{}", ps.name), &bound, |su| {
            let mut jobs = vec![];
            for l in lv(&ps) {
                for k in 0..=l {
                    jobs.push((l, k));
                }
            }
            su.par(&jobs, |&(l, k)| {
                let ops = operands(&ps, l, 2);
                if ps.ql_len(k) > 1 {
                    for seed in 0..3 {
                        su.case(&format!("relinearisation key {l}/{k} #{seed}"), || {
                            let key = er(RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(seed)), "key")?;
                            let k2 = again(&key, &ps.par, "relinearisation key")?;
                            let k3 = moved(&key, &par2, "relinearisation key")?;
                            let c = &ops[0].ct * &ops[1].ct;
                            let go = |key: &RelinearizationKey, c: &Ciphertext| -> Result<Rows, String> {
                                let mut d = c.clone();
                                er(key.relinearizes(&mut d), "relinearisation")?;
                                Ok(ct_rows(&d))
                            };
                            let w = go(&key, &c)?;
                            if w != go(&k2, &c)? || w != go(&k3, &moved(&c, &par2, "ciphertext")?)? {
                                return Err("the keys relinearise differently".into());
                            }
                            let m1 = er(fhe::bfv::Multiplicator::default(&key), "multiplicator")?;
                            let m2 = er(fhe::bfv::Multiplicator::default(&k2), "multiplicator")?;
                            if m1 != m2 || !same(&er(m1.multiply(&ops[0].ct, &ops[1].ct), "multiply")?, &er(m2.multiply(&ops[0].ct, &ops[1].ct), "multiply")?) {
                                return Err("multiplicators differ".into());
                            }
                            su.outcome(h64(&(l, k, seed)));
                            Ok(1)
                        });
                    }
                }
                // evaluation keys: nothing, every single ability, everything
                let nl = n.ilog2() as usize;
                let cols: Vec<usize> = if n <= 16 { (1..n / 2).collect() } else { vec![1, 2, 5, n / 2 - 1] };
                let total = cols.len() + nl + 4;
                for a in 0..total {
                    su.case(&format!("evaluation key {l}/{k} ability {a}"), || {
                        let key = ek(&ps, l, k, |b| {
                            let all = a == total - 1;
                            if a == 1 || all {
                                b.enable_row_rotation().unwrap();
                            }
                            if a == 2 || all {
                                b.enable_inner_sum().unwrap();
                            }
                            for (i, c) in cols.iter().enumerate() {
                                if a == 3 + i || all {
                                    b.enable_column_rotation(*c).unwrap();
                                }
                            }
                            for x in 1..=nl {
                                if a == 2 + cols.len() + x || all {
                                    b.enable_expansion(x).unwrap();
                                }
                            }
                        });
                        let k2 = again(&key, &ps.par, "evaluation key")?;
                        let k3 = moved(&key, &par2, "evaluation key")?;
                        let c = &ops[0].ct;
                        let w = ek_behaviour(&key, c, n);
                        if w != ek_behaviour(&k2, c, n) {
                            return Err("the keys behave differently".into());
                        }
                        if w != ek_behaviour(&k3, &moved(c, &par2, "ciphertext")?, n) {
                            return Err("the keys behave differently under equal parameters".into());
                        }
                        su.outcome(h64(&(l, k, a)));
                        Ok(w.len() as u64)
                    });
                }
                if l == k {
                    for (i, m) in messages(&ps, 8).iter().enumerate() {
                        su.case(&format!("RGSW level {l} message {i}"), || {
                            let g = er(rgsw(&ps, m, l, i as u64), "RGSW")?;
                            let g2 = again(&g, &ps.par, "RGSW")?;
                            let g3 = moved(&g, &par2, "RGSW")?;
                            for c in &ops {
                                let w = ct_rows(&(&c.ct * &g));
                                if w != ct_rows(&(&c.ct * &g2)) || w != ct_rows(&(&moved(&c.ct, &par2, "ciphertext")? * &g3)) {
                                    return Err("external products differ".into());
                                }
                            }
                            su.outcome(h64(&(l, i)));
                            Ok(2)
                        });
                    }
                }
            });
        });
    }
}
