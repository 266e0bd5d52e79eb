//! B14: objects that do not belong together are refused by every operation that takes two of them.
use crate::b_core::*;
use crate::b_ops::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{dot_product_scalar, Ciphertext, Encoding, EvaluationKey, Multiplicator, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::{FheDecrypter, FheEncoder, FheEncrypter};
use num_traits::ToPrimitive;

/// One object of every kind at every level of a parameter set.
struct World {
    ps: Ps,
    /// [level][parts - 2]
    ct: Vec<Vec<Ciphertext>>,
    empty: Ciphertext,
    pt: Vec<Plaintext>,
    pk: PublicKey,
    rk: Vec<Vec<RelinearizationKey>>,
    ek: Vec<Vec<EvaluationKey>>,
    g: Vec<RGSWCiphertext>,
    mu: Vec<Multiplicator>,
}
impl World {
    fn new(name: &str, n: usize, t: u64, q: &[u64], var: usize) -> World {
        let ps = Ps::new(name, n, bu(t), Mods::List(q), var, Secret::Random(3));
        let nl = ps.levels();
        let m = messages(&ps, 12)[10].clone();
        World {
            ct: (0..nl)
                .map(|l| {
                    let a = ps.enc_seeded(&m, l, 7, &ps.errs(1), l % 2 == 0);
                    let b = &a * &a;
                    let c = &b * &a;
                    vec![a, b, c]
                })
                .collect(),
            empty: Ciphertext::zero(&ps.par),
            pt: (0..nl).map(|l| ps.plaintext(&m, l)).collect(),
            pk: ps.pk(5, 1, true),
            rk: (0..nl).map(|l| rks(&ps, l).into_iter().map(|x| x.1).collect()).collect(),
            ek: (0..nl)
                .map(|l| {
                    [0, l]
                        .iter()
                        .map(|&k| {
                            ek(&ps, l, k, |b| {
                                b.enable_row_rotation().unwrap().enable_inner_sum().unwrap().enable_column_rotation(1).unwrap().enable_expansion(2).unwrap();
                            })
                        })
                        .collect()
                })
                .collect(),
            g: (0..nl).map(|l| rgsw(&ps, &m, l, 4).unwrap()).collect(),
            mu: (0..nl).map(|l| strategies(&ps, l).remove(0).m).collect(),
            ps,
        }
    }
}

/// A fallible call must report an error and keep its ciphertexts.
fn refuse<T>(what: &str, cts: &[&Ciphertext], f: impl FnOnce() -> fhe::Result<T>) -> Result<u64, String> {
    let before: Vec<Ciphertext> = cts.iter().map(|c| (*c).clone()).collect();
    match guard(f) {
        Ok(Ok(_)) => return Err(format!("{what} was accepted")),
        Ok(Err(_)) => {}
        Err(p) => return Err(format!("{what} panicked instead of reporting an error: {p}")),
    }
    for (a, b) in before.iter().zip(cts) {
        if !same(a, b) {
            return Err(format!("{what}: a refused operation changed an operand"));
        }
    }
    Ok(1)
}
/// A fallible in-place call.
fn refuse_mut<T>(what: &str, ct: &Ciphertext, f: impl FnOnce(&mut Ciphertext) -> fhe::Result<T>) -> Result<u64, String> {
    let mut c = ct.clone();
    match guard(|| f(&mut c)) {
        Ok(Ok(_)) => return Err(format!("{what} was accepted")),
        Ok(Err(_)) => {}
        Err(p) => return Err(format!("{what} panicked instead of reporting an error: {p}")),
    }
    if !same(&c, ct) {
        return Err(format!("{what}: a refused operation changed its operand"));
    }
    Ok(1)
}
/// An infallible operator must panic.
fn dies<T>(what: &str, f: impl FnOnce() -> T) -> Result<u64, String> {
    match guard(f) {
        Ok(_) => Err(format!("{what} returned a result")),
        Err(_) => Ok(1),
    }
}
fn ct_ct(a: &Ciphertext, b: &Ciphertext, mul: bool) -> Result<u64, String> {
    let mut n = dies("ct + ct", || a + b)?;
    n += dies("ct (owned) + ct", || a.clone() + b)?;
    n += dies("ct += ct", || { let mut x = a.clone(); x += b; x })?;
    n += dies("ct - ct", || a - b)?;
    n += dies("ct (owned) - ct", || a.clone() - b)?;
    n += dies("ct -= ct", || { let mut x = a.clone(); x -= b; x })?;
    if mul {
        n += dies("ct * ct", || a * b)?;
    }
    Ok(n)
}
fn ct_pt(a: &Ciphertext, p: &Plaintext) -> Result<u64, String> {
    let mut n = dies("ct + pt", || a + p)?;
    n += dies("ct (owned) + pt", || a.clone() + p)?;
    n += dies("ct += pt", || { let mut x = a.clone(); x += p; x })?;
    n += dies("pt + ct", || p + a)?;
    n += dies("ct - pt", || a - p)?;
    n += dies("ct (owned) - pt", || a.clone() - p)?;
    n += dies("ct -= pt", || { let mut x = a.clone(); x -= p; x })?;
    n += dies("pt - ct", || p - a)?;
    n += dies("ct * pt", || a * p)?;
    n += dies("ct (owned) * pt", || a.clone() * p)?;
    n += dies("ct *= pt", || { let mut x = a.clone(); x *= p; x })?;
    Ok(n)
}
fn ek_all(k: &EvaluationKey, c: &Ciphertext, what: &str) -> Result<u64, String> {
    let mut n = refuse(&format!("row rotation of {what}"), &[c], || k.rotates_rows(c))?;
    n += refuse(&format!("column rotation of {what}"), &[c], || k.rotates_columns_by(c, 1))?;
    n += refuse(&format!("inner sum of {what}"), &[c], || k.computes_inner_sum(c))?;
    for s in 1..=4 {
        n += refuse(&format!("expansion of {what} to {s}"), &[c], || k.expands(c, s))?;
    }
    Ok(n)
}
fn enc_ct(sk: &SecretKey, p: &Plaintext) -> fhe::Result<Ciphertext> {
    <SecretKey as FheEncrypter<Plaintext, Ciphertext>>::try_encrypt(sk, p, &mut rng(1))
}
fn enc_g(sk: &SecretKey, p: &Plaintext) -> fhe::Result<RGSWCiphertext> {
    <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(sk, p, &mut rng(1))
}

pub fn b14(r: &Rep) {
    let p62 = ntt_primes(62, 32, 5);
    let base = [p62[0], p62[1], p62[2]];
    // parameter sets that differ from the first in exactly one respect
    let worlds: Vec<World> = vec![
        World::new("base", 8, 17, &base, 10),
        World::new("plaintext modulus", 8, 97, &base, 10),
        World::new("variance", 8, 17, &base, 9),
        World::new("degree", 16, 17, &base, 10),
        World::new("last modulus", 8, 17, &[base[0], base[1], p62[3]], 10),
        World::new("first modulus", 8, 17, &[p62[3], base[1], base[2]], 10),
        World::new("one more modulus", 8, 17, &[base[0], base[1], base[2], p62[4]], 10),
        World::new("one modulus less", 8, 17, &base[..2], 10),
        World::new("order of moduli", 8, 17, &[base[1], base[0], base[2]], 10),
    ];
    let pairs: Vec<(usize, usize)> = (0..worlds.len()).flat_map(|a| (0..worlds.len()).filter(move |b| *b != a).map(move |b| (a, b))).collect();
    r.suite("other-parameters", "all ordered pairs of nine parameter sets differing in one respect (plaintext modulus, variance, degree, moduli, their number or order) x all level pairs x every operation on two objects, each argument position", |su| {
        su.par(&pairs, |&(i, j)| {
            let (a, b) = (&worlds[i], &worlds[j]);
            for la in 0..a.ps.levels() {
                for lb in 0..b.ps.levels() {
                    let key = format!("{} level {la} with {} level {lb}", a.ps.name, b.ps.name);
                    su.case(&key, || {
                        let mut n = 0;
                        for (ia, x) in a.ct[la].iter().enumerate() {
                            for y in b.ct[lb].iter().chain([&b.empty]) {
                                n += ct_ct(x, y, true)?;
                                n += ct_ct(y, x, true)?;
                            }
                            n += ct_pt(x, &b.pt[lb])?;
                            n += refuse("decryption with a foreign key", &[x], || b.ps.sk.try_decrypt(x))?;
                            n += refuse("noise measurement with a foreign key", &[x], || unsafe { b.ps.sk.measure_noise(x) })?;
                            for k in &b.rk[lb] {
                                n += refuse_mut("relinearisation with a foreign key", x, |c| k.relinearizes(c))?;
                            }
                            for k in &b.ek[lb] {
                                n += ek_all(k, x, "a foreign ciphertext")?;
                            }
                            n += dies("ct * RGSW", || x * &b.g[lb])?;
                            n += dies("RGSW * ct", || &b.g[lb] * x)?;
                            for y in &b.ct[lb] {
                                n += refuse("multiplication of a foreign left operand", &[x, y], || b.mu[lb].multiply(x, y))?;
                                n += refuse("multiplication of a foreign right operand", &[x, y], || b.mu[lb].multiply(y, x))?;
                                n += refuse("multiplication of foreign operands", &[x, y], || b.mu[lb].multiply(x, x))?;
                            }
                            // dot products: one foreign element
                            let y = &b.ct[lb][ia];
                            for len in [1usize, 2, 17] {
                                for pos in 0..len {
                                    let mut cs = vec![y; len];
                                    cs[pos] = x;
                                    let pp = vec![&b.pt[lb]; len];
                                    n += refuse("dot product with a foreign ciphertext", &[x, y], || dot_product_scalar(cs.iter().copied(), pp.iter().copied()))?;
                                    let cs = vec![y; len];
                                    let mut pp = vec![&b.pt[lb]; len];
                                    pp[pos] = &a.pt[la];
                                    n += refuse("dot product with a foreign plaintext", &[x, y], || dot_product_scalar(cs.iter().copied(), pp.iter().copied()))?;
                                }
                            }
                        }
                        n += refuse("encryption of a foreign plaintext", &[], || enc_ct(&b.ps.sk, &a.pt[la]))?;
                        n += refuse("RGSW encryption of a foreign plaintext", &[], || enc_g(&b.ps.sk, &a.pt[la]))?;
                        n += refuse::<Ciphertext>("public-key encryption of a foreign plaintext", &[], || b.pk.try_encrypt(&a.pt[la], &mut rng(2)))?;
                        for k in &a.rk[la] {
                            let mut m = b.mu[lb].clone();
                            n += refuse("a foreign relinearisation key in a multiplicator", &[], || m.enable_relinearization(k))?;
                            if m != b.mu[lb] {
                                return Err("the refused key changed the multiplicator".into());
                            }
                        }
                        // contexts
                        let ca = a.ps.par.context_at_level(la).unwrap();
                        let known = (0..b.ps.levels()).any(|l| b.ps.ql(l) == a.ps.ql(la)) && a.ps.n == b.ps.n;
                        let z = Poly::<Ntt>::zero(ca);
                        let got = guard(|| Ciphertext::new(vec![z.clone(), z.clone()], &b.ps.par)).map_err(|p| format!("Ciphertext::new panicked: {p}"))?;
                        if got.is_ok() != known {
                            return Err(format!("Ciphertext::new with polynomials of a context that is {}: {}", if known { "known" } else { "foreign" }, got.is_ok()));
                        }
                        if b.ps.par.level_of_context(ca).is_ok() != known {
                            return Err("level_of_context".into());
                        }
                        su.outcome(h64(&(i, j, la, lb)));
                        Ok(n)
                    });
                }
            }
        });
    });
    r.suite("other-levels-parts", "all pairs of levels and of part counts 0,2,3,4 of one parameter set x every operation on two objects", |su| {
        let idx: Vec<usize> = (0..worlds.len()).collect();
        su.par(&idx, |&i| {
            let w = &worlds[i];
            let nl = w.ps.levels();
            for la in 0..nl {
                for lb in 0..nl {
                    su.case(&format!("{} levels {la},{lb}", w.ps.name), || {
                        let mut n = 0;
                        for (ia, x) in w.ct[la].iter().enumerate() {
                            for (ib, y) in w.ct[lb].iter().enumerate() {
                                if la != lb {
                                    n += ct_ct(x, y, true)?;
                                } else if ia != ib {
                                    n += ct_ct(x, y, false)?;
                                }
                                if la != lb || ia != 0 || ib != 0 {
                                    n += refuse("multiplication", &[x, y], || w.mu[la].multiply(x, y))?;
                                    n += refuse("multiplication", &[x, y], || w.mu[lb].multiply(x, y))?;
                                }
                                if la != lb || ia != ib {
                                    for (c, d) in [(x, y), (y, x)] {
                                        n += refuse("dot product", &[x, y], || dot_product_scalar([c, d].into_iter(), [&w.pt[la], &w.pt[la]].into_iter()))?;
                                        n += refuse("dot product", &[x, y], || dot_product_scalar([c, d].into_iter(), [&w.pt[la], &w.pt[lb]].into_iter()))?;
                                    }
                                }
                            }
                            if la != lb {
                                n += ct_pt(x, &w.pt[lb])?;
                            }
                            for k in &w.rk[lb] {
                                if la != lb || ia != 1 {
                                    n += refuse_mut("relinearisation", x, |c| k.relinearizes(c))?;
                                }
                            }
                            if la != lb || ia != 0 {
                                for k in &w.ek[lb] {
                                    n += ek_all(k, x, "a ciphertext of another level or size")?;
                                }
                                n += dies("ct * RGSW", || x * &w.g[lb])?;
                                n += dies("RGSW * ct", || &w.g[lb] * x)?;
                            }
                            if lb < la {
                                n += refuse_mut("switching up", x, |c| c.switch_to_level(lb))?;
                            }
                        }
                        if la != lb {
                            for k in &w.rk[lb] {
                                let mut m = w.mu[la].clone();
                                n += refuse("a relinearisation key of another level", &[], || m.enable_relinearization(k))?;
                            }
                            // mixed parts
                            let (x, y) = (&w.ct[la][0], &w.ct[lb][0]);
                            n += refuse("a ciphertext of parts at different levels", &[], || Ciphertext::new(vec![x[0].clone(), y[1].clone()], &w.ps.par))?;
                            n += refuse("a ciphertext of parts at different levels", &[], || Ciphertext::new(vec![x[0].clone(), x[1].clone(), y[1].clone()], &w.ps.par))?;
                            // a ciphertext whose parts were tampered with through the slice view
                            for p in 0..2 {
                                let mut t = x.clone();
                                t[p] = y[p].clone();
                                n += refuse("decryption of mixed levels", &[&t], || w.ps.sk.try_decrypt(&t))?;
                                n += refuse("noise of mixed levels", &[&t], || unsafe { w.ps.sk.measure_noise(&t) })?;
                                n += refuse("multiplication of mixed levels", &[&t], || w.mu[la].multiply(&t, x))?;
                                n += refuse("multiplication of mixed levels", &[&t], || w.mu[la].multiply(x, &t))?;
                                n += refuse("dot product of mixed levels", &[&t], || dot_product_scalar([x, &t].into_iter(), [&w.pt[la], &w.pt[la]].into_iter()))?;
                                n += refuse("dot product of mixed levels", &[&t], || dot_product_scalar([&t].into_iter(), [&w.pt[la]].into_iter()))?;
                                for k in &w.ek[la] {
                                    n += ek_all(k, &t, "a ciphertext of mixed levels")?;
                                }
                                let mut t3 = w.ct[la][1].clone();
                                t3[p + 1] = y[p].clone();
                                for k in &w.rk[la] {
                                    n += refuse_mut("relinearisation of mixed levels", &t3, |c| k.relinearizes(c))?;
                                }
                            }
                        }
                        su.outcome(h64(&(i, la, lb)));
                        Ok(n)
                    });
                }
                su.case(&format!("{} level {la} no parts", w.ps.name), || {
                    let e = &w.empty;
                    let x = &w.ct[la][0];
                    let mut n = refuse("decryption of nothing", &[e], || w.ps.sk.try_decrypt(e))?;
                    n += refuse("noise of nothing", &[e], || unsafe { w.ps.sk.measure_noise(e) })?;
                    n += refuse("multiplication of nothing", &[e], || w.mu[la].multiply(e, x))?;
                    n += refuse("multiplication of nothing", &[e], || w.mu[la].multiply(x, e))?;
                    n += refuse("multiplication of nothing", &[e], || w.mu[la].multiply(e, e))?;
                    for k in &w.ek[la] {
                        n += ek_all(k, e, "nothing")?;
                    }
                    for k in &w.rk[la] {
                        n += refuse_mut("relinearisation of nothing", e, |c| k.relinearizes(c))?;
                    }
                    n += refuse("dot product of nothing", &[], || dot_product_scalar([e].into_iter(), [&w.pt[la]].into_iter()))?;
                    n += refuse("dot product of nothing", &[], || dot_product_scalar([x, e].into_iter(), [&w.pt[la], &w.pt[la]].into_iter()))?;
                    n += dies("nothing * RGSW", || e * &w.g[la])?;
                    for k in 0..2 {
                        n += refuse("a ciphertext of too few parts", &[], || Ciphertext::new(x.iter().take(k).cloned().collect(), &w.ps.par))?;
                    }
                    Ok(n)
                });
                // public key encryption only goes down; plaintexts of levels that do not exist
                for bad in [nl, nl + 1, 1 << 20, usize::MAX] {
                    su.case(&format!("{} level {bad}", w.ps.name), || {
                        let mut n = refuse("an encoding at a level that does not exist", &[], || Plaintext::try_encode(&[1u64][..], Encoding::poly_at_level(bad), &w.ps.par))?;
                        n += refuse("an encoding at a level that does not exist", &[], || Plaintext::try_encode(&[1i64][..], Encoding::simd_at_level(bad), &w.ps.par))?;
                        n += refuse("a zero plaintext at a level that does not exist", &[], || Plaintext::zero(Encoding::poly_at_level(bad), &w.ps.par))?;
                        n += refuse_mut("switching to a level that does not exist", &w.ct[la][0], |c| c.switch_to_level(bad))?;
                        Ok(n)
                    });
                }
            }
            let _ = w.ps.t.to_u64();
        });
    });
}
