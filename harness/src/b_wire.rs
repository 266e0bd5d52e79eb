//! B15: decoding arbitrary bytes as ciphertexts, keys and RGSW ciphertexts.
use crate::b_core::*;
use crate::b_ops::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, Ciphertext, EvaluationKey, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::proto::bfv as proto;
use fhe_traits::{DeserializeParametrized, FheDecrypter, FheEncrypter, Serialize};
use prost::Message;

pub struct Kit {
    pub ps: Ps,
    /// [level][parts-2]
    ct: Vec<Vec<Ciphertext>>,
    pt: Vec<Plaintext>,
    rk: Vec<Option<RelinearizationKey>>,
    ek: Vec<EvaluationKey>,
    g: Vec<RGSWCiphertext>,
    pk: PublicKey,
}
impl Kit {
    fn new(ps: Ps) -> Kit {
        let nl = ps.levels();
        let m = messages(&ps, 12)[10].clone();
        Kit {
            ct: (0..nl)
                .map(|l| {
                    let a = ps.enc_seeded(&m, l, 7, &ps.errs(1), l % 2 == 0);
                    let b = &a * &a;
                    let c = &b * &a;
                    vec![a, b, c]
                })
                .collect(),
            pt: (0..nl).map(|l| ps.plaintext(&m, l)).collect(),
            rk: (0..nl).map(|l| if ps.q.len() > 1 { RelinearizationKey::new_leveled(&ps.sk, l, 0, &mut rng(l as u64)).ok() } else { None }).collect(),
            ek: (0..nl)
                .map(|l| {
                    ek(&ps, l, 0, |b| {
                        b.enable_row_rotation().unwrap().enable_column_rotation(1).unwrap().enable_expansion(1).unwrap();
                    })
                })
                .collect(),
            g: (0..nl).map(|l| rgsw(&ps, &m, l, 4).unwrap()).collect(),
            pk: ps.pk(5, 1, true),
            ps,
        }
    }
}
fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|p| format!("{what} panicked on an accepted object: {p}"))
}
fn ser<T: Serialize + DeserializeParametrized<Parameters = BfvParameters> + PartialEq>(k: &Kit, x: &T) -> Result<Vec<u8>, String>
where
    <T as DeserializeParametrized>::Error: std::fmt::Display,
{
    let b = calm("serialisation", || x.to_bytes())?;
    let y = calm("reading back", || T::from_bytes(&b, &k.ps.par))?.map_err(|e| format!("the encoding of an accepted object is rejected: {e}"))?;
    if y != *x {
        return Err("an accepted object is not equal to its own re-reading".into());
    }
    Ok(b)
}
/// Ciphertext made by an operation on accepted input: the parts must be valid even if the message is garbage.
fn sound(k: &Kit, c: &Ciphertext, parts: usize, level: usize, what: &str) -> Result<(), String> {
    structure(&k.ps, c, parts, level).map_err(|e| format!("{what}: {e}"))
}
fn use_ct(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(c) = guard(|| Ciphertext::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    let ps = &k.ps;
    let b = ser(k, &c)?;
    let l = proto::Ciphertext::decode(b.as_slice()).map_err(|e| e.to_string())?.level as usize;
    let p = c.len();
    if p < 2 {
        return Err(format!("accepted a ciphertext of {p} parts"));
    }
    sound(k, &c, p, l, "accepted ciphertext")?;
    if p > 6 {
        return Ok(1);
    }
    let d = calm("decryption", || ps.sk.try_decrypt(&c))?.map_err(|e| format!("decryption of an accepted ciphertext failed: {e}"))?;
    if ps.qq(l) > ps.t && pt_coeffs(ps, &d)? != exact_decode(ps, &ps.phase(&c), l) {
        // ties of the fixed-point rounding do not occur for arbitrary residues of these sizes except by accident
        let ph = ps.phase(&c);
        let q = ps.qq(l);
        let near = ph.iter().any(|x| {
            let y = (x * &ps.t * 2u32) % &q;
            let z = &q - &y;
            y.min(z) < bu(1 << 8)
        });
        if !near {
            return Err("an accepted ciphertext decrypts to something else than its contents".into());
        }
    }
    calm("noise", || unsafe { ps.sk.measure_noise(&c) })?.map_err(|e| format!("noise: {e}"))?;
    for (n, r) in [("+", calm("addition", || &c + &c)?), ("-", calm("subtraction", || &c - &c)?), ("neg", calm("negation", || -&c)?)] {
        sound(k, &r, p, l, n)?;
    }
    if p < 5 {
        let o = &k.ct[l][p - 2];
        let s = calm("addition", || &c + o)?;
        if ct_rows(&calm("subtraction", || &s - o)?) != ct_rows(&c) {
            return Err("adding and subtracting changes an accepted ciphertext".into());
        }
    }
    sound(k, &calm("product", || &c * &k.ct[l][0])?, p + 1, l, "product")?;
    sound(k, &calm("plaintext product", || &c * &k.pt[l])?, p, l, "plaintext product")?;
    sound(k, &calm("plaintext sum", || &c + &k.pt[l])?, p, l, "plaintext sum")?;
    calm("dot product", || fhe::bfv::dot_product_scalar([&c, &c].into_iter(), [&k.pt[l], &k.pt[l]].into_iter()))?.map_err(|e| format!("dot product: {e}"))?;
    if l + 1 < ps.levels() {
        let mut x = c.clone();
        calm("switching", || x.switch_down())?.map_err(|e| format!("switching: {e}"))?;
        sound(k, &x, p, l + 1, "switched")?;
        ser(k, &x)?;
    }
    if p == 3 {
        if let Some(rk) = &k.rk[l] {
            let mut x = c.clone();
            calm("relinearisation", || rk.relinearizes(&mut x))?.map_err(|e| format!("relinearisation: {e}"))?;
            sound(k, &x, 2, l, "relinearised")?;
            ser(k, &x)?;
        }
    }
    if p == 2 {
        for (n, r) in [("rows", calm("rotation", || k.ek[l].rotates_rows(&c))?), ("columns", calm("rotation", || k.ek[l].rotates_columns_by(&c, 1))?)] {
            sound(k, &r.map_err(|e| format!("rotation: {e}"))?, 2, l, n)?;
        }
        calm("expansion", || k.ek[l].expands(&c, 2))?.map_err(|e| format!("expansion: {e}"))?;
        sound(k, &calm("external product", || &c * &k.g[l])?, 2, l, "external product")?;
    }
    Ok(1)
}
fn use_pk(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(pk) = guard(|| PublicKey::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    let b = ser(k, &pk)?;
    let p = proto::PublicKey::decode(b.as_slice()).map_err(|e| e.to_string())?;
    let c = p.c.ok_or("an accepted public key has no ciphertext")?;
    let parts = c.c.len() + !c.seed.is_empty() as usize;
    if parts != 2 || c.level != 0 {
        return Err(format!("accepted a public key of {parts} polynomials at level {}", c.level));
    }
    for l in 0..k.ps.levels() {
        let ct: Ciphertext = calm("encryption", || pk.try_encrypt(&k.pt[l], &mut rng(3)))?.map_err(|e| format!("encryption: {e}"))?;
        sound(k, &ct, 2, l, "encryption")?;
        ser(k, &ct)?;
    }
    Ok(1)
}
fn use_sk(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(sk) = guard(|| SecretKey::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    ser(k, &sk)?;
    let n = sk_coeffs(&sk).len();
    if n != k.ps.n {
        return Err(format!("accepted a secret key of {n} coefficients"));
    }
    let s = sk_coeffs(&sk);
    for l in 0..k.ps.levels() {
        for c in &k.ct[l] {
            calm("decryption", || sk.try_decrypt(c))?.map_err(|e| format!("decryption: {e}"))?;
            calm("noise", || unsafe { sk.measure_noise(c) })?.map_err(|e| format!("noise: {e}"))?;
        }
        let ct = calm("encryption", || <SecretKey as FheEncrypter<Plaintext, Ciphertext>>::try_encrypt(&sk, &k.pt[l], &mut rng(3)))?.map_err(|e| format!("encryption: {e}"))?;
        sound(k, &ct, 2, l, "encryption")?;
        // the key is used with the coefficients it was given
        let big: Vec<i64> = s.clone();
        let m = pt_coeffs(&k.ps, &k.pt[l]);
        let d = calm("decryption", || sk.try_decrypt(&ct))?.map_err(|e| format!("decryption: {e}"))?;
        if k.ps.qq(l) > k.ps.t && m.is_ok() && pt_coeffs(&k.ps, &d)? != exact_decode(&k.ps, &phase_wide(&k.ps, &ct, &big), l) {
            return Err("decryption does not use the coefficients of the key".into());
        }
        calm("RGSW", || <SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&sk, &k.pt[l], &mut rng(3)))?.map_err(|e| format!("RGSW: {e}"))?;
        if k.ps.q.len() > 1 {
            calm("relinearisation key", || RelinearizationKey::new_leveled(&sk, l, 0, &mut rng(3)))?.map_err(|e| format!("relinearisation key: {e}"))?;
        }
        calm("evaluation key", || {
            let mut b = fhe::bfv::EvaluationKeyBuilder::new_leveled(&sk, l, 0)?;
            b.enable_row_rotation()?;
            b.build(&mut rng(3))
        })?
        .map_err(|e| format!("evaluation key: {e}"))?;
    }
    calm("public key", || PublicKey::new(&sk, &mut rng(4)))?;
    Ok(1)
}
fn phase_wide(ps: &Ps, ct: &Ciphertext, s: &[i64]) -> Vec<num_bigint::BigUint> {
    phase_with(ps, ct, s)
}
fn use_rk(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(key) = guard(|| RelinearizationKey::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    let b = ser(k, &key)?;
    let p = proto::RelinearizationKey::decode(b.as_slice()).map_err(|e| e.to_string())?.ksk.ok_or("no key-switching key")?;
    let (l, kl) = (p.ciphertext_level as usize, p.ksk_level as usize);
    for x in 0..k.ps.levels() {
        let mut c = k.ct[x][1].clone();
        let got = calm("relinearisation", || key.relinearizes(&mut c))?;
        if got.is_ok() != (x == l && kl <= l) {
            return Err(format!("a key for levels {l}/{kl} {} a ciphertext at level {x}: {:?}", if got.is_ok() { "accepts" } else { "refuses" }, got.err()));
        }
        if got.is_ok() {
            sound(k, &c, 2, x, "relinearised")?;
            ser(k, &c)?;
        } else if !same(&c, &k.ct[x][1]) {
            return Err("a refused relinearisation changed the ciphertext".into());
        }
    }
    if let Ok(m) = calm("multiplicator", || fhe::bfv::Multiplicator::default(&key))? {
        if kl <= l {
            let c = calm("multiplication", || m.multiply(&k.ct[l][0], &k.ct[l][0]))?.map_err(|e| format!("multiplication: {e}"))?;
            sound(k, &c, 2, l, "product")?;
        }
    }
    Ok(1)
}
fn use_ek(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(key) = guard(|| EvaluationKey::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    let b = ser(k, &key)?;
    let p = proto::EvaluationKey::decode(b.as_slice()).map_err(|e| e.to_string())?;
    let l = p.ciphertext_level as usize;
    if l >= k.ps.levels() || p.evaluation_key_level as usize > l {
        return Err(format!("accepted an evaluation key for ciphertexts of level {l} with keys of level {}", p.evaluation_key_level));
    }
    let n = k.ps.n;
    for x in 0..k.ps.levels() {
        let c = &k.ct[x][0];
        let mut go = |what: String, sup: bool, r: fhe::Result<Vec<Ciphertext>>| -> Result<(), String> {
            if r.is_ok() != (sup && x == l) {
                return Err(format!("{what} is reported as {sup} for level {l}; at level {x}: {:?}", r.err()));
            }
            for c in r.unwrap_or_default() {
                sound(k, &c, 2, x, &what)?;
            }
            Ok(())
        };
        go("rows".into(), calm("query", || key.supports_row_rotation())?, calm("rotation", || key.rotates_rows(c))?.map(|c| vec![c]))?;
        go("inner sum".into(), calm("query", || key.supports_inner_sum())?, calm("inner sum", || key.computes_inner_sum(c))?.map(|c| vec![c]))?;
        for i in 0..n / 2 + 1 {
            go(format!("columns {i}"), calm("query", || key.supports_column_rotation_by(i))?, calm("rotation", || key.rotates_columns_by(c, i))?.map(|c| vec![c]))?;
        }
        for e in 0..=n.ilog2() as usize {
            go(format!("expansion {e}"), calm("query", || key.supports_expansion(e))?, calm("expansion", || key.expands(c, 1 << e))?)?;
        }
    }
    Ok(1)
}
fn use_g(k: &Kit, bytes: &[u8]) -> Result<u64, String> {
    let Ok(g) = guard(|| RGSWCiphertext::from_bytes(bytes, &k.ps.par)).map_err(|p| format!("decoding panicked: {p}"))? else { return Ok(0) };
    let b = ser(k, &g)?;
    let p = proto::RgswCiphertext::decode(b.as_slice()).map_err(|e| e.to_string())?;
    let l = p.ksk0.as_ref().ok_or("no first key")?.ciphertext_level as usize;
    if l >= k.ps.levels() {
        return Err(format!("accepted an RGSW ciphertext of level {l}"));
    }
    let c = calm("external product", || &k.ct[l][0] * &g)?;
    sound(k, &c, 2, l, "external product")?;
    let d = calm("external product", || &g * &k.ct[l][0])?;
    if !same(&c, &d) {
        return Err("the two orders differ".into());
    }
    ser(k, &c)?;
    Ok(1)
}
type Use = fn(&Kit, &[u8]) -> Result<u64, String>;

/// Everything near a genuine encoding: truncations, extensions, every byte changed, field swaps.
fn near(su: &Suite, k: &Kit, name: &str, b: &[u8], f: Use, all: bool) {
    su.case(&format!("{name} genuine"), || if f(k, b)? == 0 { Err("a genuine encoding was rejected".into()) } else { Ok(1) });
    let lens: Vec<usize> = (0..b.len()).collect();
    su.par(&lens, |&n| {
        su.case(&format!("{name} truncated to {n}"), || f(k, &b[..n]));
        su.case(&format!("{name} from {n}"), || f(k, &b[n..]));
        let vals: Vec<u8> = if all {
            (0..=255u8).filter(|v| *v != b[n]).collect()
        } else {
            let mut v: Vec<u8> = (0..8).map(|i| b[n] ^ (1 << i)).collect();
            v.extend([0, 1, 0x7f, 0x80, 0xff, b[n].wrapping_add(1), b[n].wrapping_sub(1)]);
            v.sort();
            v.dedup();
            v.retain(|x| *x != b[n]);
            v
        };
        let mut acc = 0u64;
        for v in vals {
            let mut c = b.to_vec();
            c[n] = v;
            su.case(&format!("{name} byte {n} = {v}"), || {
                let r = f(k, &c)?;
                acc = acc.wrapping_mul(3).wrapping_add(r);
                Ok(1)
            });
        }
        su.outcome(h64(&(name, acc)));
        // an inserted, a removed and a doubled byte
        for v in [0u8, 0x08, 0x0a, 0x12, 0xff] {
            let mut c = b.to_vec();
            c.insert(n, v);
            su.case(&format!("{name} {v} inserted at {n}"), || f(k, &c));
        }
        let mut c = b.to_vec();
        c.remove(n);
        su.case(&format!("{name} byte {n} removed"), || f(k, &c));
    });
    su.case(&format!("{name} twice"), || f(k, &[b, b].concat()));
    for v in 0..=255u8 {
        su.case(&format!("{name} followed by {v}"), || f(k, &[b, &[v]].concat()));
    }
}
fn all_sizes() -> Vec<usize> {
    vec![0, 1, 2, 31, 32, 33, 64]
}

fn kits() -> Vec<Ps> {
    vec![
        Ps::new("n8-t17-3x20", 8, bu(17), Mods::Sizes(&[20, 20, 20]), 1, Secret::Random(51)),
        Ps::new("n8-t5-1x18", 8, bu(5), Mods::Sizes(&[18]), 2, Secret::Random(52)),
        Ps::new("n8-t70bit-62,62", 8, (num_bigint::BigUint::from(1u32) << 70usize) + 25u32, Mods::Sizes(&[62, 62]), 10, Secret::Random(53)),
    ]
}

pub fn b15(r: &Rep) {
    for (ki, ps) in kits().into_iter().enumerate() {
        let k = Kit::new(ps);
        let ps = &k.ps;
        let nl = ps.levels();
        let name = ps.name.clone();
        let all = r.thorough || ki < 2;
        let desc = format!("genuine encodings of every object kind and level: every truncation and suffix, every byte set to {}, bytes inserted, removed and appended; whatever is accepted is re-read and used in every operation", if all { "every value" } else { "every bit flip and special values" });
        r.suite(&format!("ciphertext-bytes-{name}"), &desc, |su| {
            for l in 0..nl {
                for p in 0..2 {
                    near(su, &k, &format!("level {l} parts {}", p + 2), &k.ct[l][p].to_bytes(), use_ct, all);
                }
                let s = ps.enc_seeded(&messages(ps, 3)[1], l, 9, &ps.errs(1), true);
                near(su, &k, &format!("level {l} seeded"), &s.to_bytes(), use_ct, all);
            }
        });
        r.suite(&format!("key-bytes-{name}"), &desc, |su| {
            near(su, &k, "pk", &k.pk.to_bytes(), use_pk, all);
            near(su, &k, "pk unseeded", &ps.pk(6, 2, false).to_bytes(), use_pk, all);
            near(su, &k, "sk", &ps.sk.to_bytes(), use_sk, all);
            near(su, &k, "sk with wide coefficients", &sk_from(&ps.par, &[i64::MIN, i64::MAX, -1, 0, 1 << 40, -(1 << 40), 63, -64]).to_bytes(), use_sk, false);
            for l in 0..nl {
                for (kl, key) in rks(ps, l) {
                    near(su, &k, &format!("rk {l}/{kl}"), &key.to_bytes(), use_rk, r.thorough || (all && l < 2));
                }
                for kl in [0, l] {
                    near(su, &k, &format!("rgsw {l}"), &k.g[l].to_bytes(), use_g, r.thorough);
                    let key = ek(ps, l, kl, |b| {
                        b.enable_row_rotation().unwrap();
                    });
                    near(su, &k, &format!("ek {l}/{kl}"), &key.to_bytes(), use_ek, r.thorough);
                    let key = ek(ps, l, kl, |_| ());
                    near(su, &k, &format!("empty ek {l}/{kl}"), &key.to_bytes(), use_ek, true);
                }
            }
        });
        r.suite(&format!("cross-{name}"), "every genuine encoding of every kind read as every other kind", |su| {
            let mut bs: Vec<(String, Vec<u8>)> = vec![("pk".into(), k.pk.to_bytes()), ("sk".into(), ps.sk.to_bytes()), ("parameters".into(), ps.par.to_bytes()), ("nothing".into(), vec![])];
            for l in 0..nl {
                for p in 0..3 {
                    bs.push((format!("ct {l} {p}"), k.ct[l][p].to_bytes()));
                }
                bs.push((format!("rgsw {l}"), k.g[l].to_bytes()));
                bs.push((format!("ek {l}"), k.ek[l].to_bytes()));
                for (kl, key) in rks(ps, l) {
                    bs.push((format!("rk {l}/{kl}"), key.to_bytes()));
                }
            }
            for (n, b) in &bs {
                for (w, f) in [("ct", use_ct as Use), ("pk", use_pk), ("sk", use_sk), ("rk", use_rk), ("ek", use_ek), ("rgsw", use_g)] {
                    su.case(&format!("{n} as {w}"), || {
                        let x = f(&k, b)?;
                        su.outcome(h64(&(n, w, x)));
                        Ok(1)
                    });
                }
            }
        });
        r.suite(&format!("fields-{name}"), "all combinations of levels, part counts, seed lengths, decomposition bases, exponents and contained polynomials of other levels or representations", |su| {
            // polynomial encodings by level: NTT, NttShoup, power basis
            let polys: Vec<[Vec<u8>; 3]> = (0..nl)
                .map(|l| {
                    use fhe_math::rq::{Ntt, Poly};
                    let ctx = ps.par.context_at_level(l).unwrap();
                    let p = Poly::<Ntt>::random_from_seed(ctx, [l as u8 + 1; 32]);
                    [p.to_bytes(), p.clone().into_ntt_shoup().to_bytes(), p.into_power_basis().to_bytes()]
                })
                .collect();
            let lvls: Vec<u32> = (0..nl as u32 + 2).chain([255, u32::MAX]).collect();
            // ciphertexts
            let mut items: Vec<proto::Ciphertext> = vec![];
            for &level in &lvls {
                for cnt in 0..6usize {
                    for seed in all_sizes() {
                        for pl in 0..nl {
                            for rep in 0..3 {
                                for odd in 0..=cnt.min(2) {
                                    // odd: this part comes from the first level in NTT form instead
                                    let mut c: Vec<Vec<u8>> = vec![polys[pl][rep].clone(); cnt];
                                    if odd > 0 {
                                        c[odd - 1] = polys[0][0].clone();
                                    }
                                    items.push(proto::Ciphertext { c, seed: vec![7; seed], level });
                                }
                            }
                        }
                    }
                }
            }
            su.par(&items, |p| {
                let key = || format!("ciphertext level {} parts {:?} seed {}", p.level, p.c.iter().map(|x| x.len()).collect::<Vec<_>>(), p.seed.len());
                su.case(&key(), || {
                    let x = use_ct(&k, &p.encode_to_vec())?;
                    let y = use_pk(&k, &proto::PublicKey { c: Some(p.clone()) }.encode_to_vec())?;
                    su.outcome(h64(&(p.level, p.c.len(), p.seed.len(), x, y)));
                    Ok(2)
                });
            });
            su.case("public key without a ciphertext", || if use_pk(&k, &proto::PublicKey { c: None }.encode_to_vec())? == 1 { Err("accepted".into()) } else { Ok(1) });
            // secret keys
            for cnt in 0..2 * ps.n + 2 {
                for v in [0i64, 1, -1, i64::MIN, i64::MAX, i64::MIN + 1] {
                    su.case(&format!("secret key of {cnt} x {v}"), || {
                        let x = use_sk(&k, &proto::SecretKey { coeffs: vec![v; cnt] }.encode_to_vec())?;
                        if (x == 1) != (cnt == ps.n) {
                            return Err(format!("{cnt} coefficients: accepted {x}"));
                        }
                        Ok(1)
                    });
                }
            }
            // key-switching keys inside relinearisation keys, Galois keys and RGSW ciphertexts
            let lm = ps.q[0].next_power_of_two().ilog2();
            let mut ks: Vec<proto::KeySwitchingKey> = vec![];
            for &cl in &lvls {
                for &kl in &lvls {
                    for lb in (0..=70u32).chain([127, 128, 255, 256, 1 << 20, u32::MAX]) {
                        let single = cl as usize + 1 == nl && kl as usize + 1 == nl;
                        if lb > 2 && !single && lb != lm / 2 && lb != 64 {
                            continue;
                        }
                        let need = if lb == 0 { nl.saturating_sub(cl as usize) } else { lm.div_ceil(lb) as usize };
                        let mut counts = vec![0, 1, need, need + 1];
                        counts.dedup();
                        for c0 in counts {
                            for (c1, seed) in [(0usize, 32usize), (c0, 0), (c0, 32), (0, 0), (0, 31), (0, 33), (c0 + 1, 0), (c0.saturating_sub(1), 0)] {
                                for rep in [1usize, 0] {
                                    if rep == 0 && (lb > 1 || seed != 32) {
                                        continue;
                                    }
                                    let p = &polys[(kl as usize).min(nl - 1)][rep];
                                    ks.push(proto::KeySwitchingKey { c0: vec![p.clone(); c0], c1: vec![p.clone(); c1], seed: vec![9; seed], ciphertext_level: cl, ksk_level: kl, log_base: lb });
                                }
                            }
                        }
                    }
                }
            }
            let good: Vec<proto::KeySwitchingKey> = (0..nl).map(|l| proto::RgswCiphertext::decode(k.g[l].to_bytes().as_slice()).unwrap().ksk0.unwrap()).collect();
            su.par(&ks, |p| {
                su.case(&format!("key-switching key levels {}/{} base {} c0 {} c1 {} seed {}", p.ciphertext_level, p.ksk_level, p.log_base, p.c0.len(), p.c1.len(), p.seed.len()), || {
                    let mut acc = vec![use_rk(&k, &proto::RelinearizationKey { ksk: Some(p.clone()) }.encode_to_vec())?];
                    for (cl, kl) in [(p.ciphertext_level, p.ksk_level), (0, 0), (p.ciphertext_level, 0), (p.ksk_level, p.ciphertext_level)] {
                        let g = proto::GaloisKey { exponent: 2 * ps.n as u32 - 1, ksk: Some(p.clone()) };
                        acc.push(use_ek(&k, &proto::EvaluationKey { gk: vec![g], ciphertext_level: cl, evaluation_key_level: kl }.encode_to_vec())?);
                    }
                    acc.push(use_g(&k, &proto::RgswCiphertext { ksk0: Some(p.clone()), ksk1: Some(p.clone()) }.encode_to_vec())?);
                    for o in &good {
                        acc.push(use_g(&k, &proto::RgswCiphertext { ksk0: Some(p.clone()), ksk1: Some(o.clone()) }.encode_to_vec())?);
                        acc.push(use_g(&k, &proto::RgswCiphertext { ksk0: Some(o.clone()), ksk1: Some(p.clone()) }.encode_to_vec())?);
                    }
                    su.outcome(h64(&(p.ciphertext_level, p.ksk_level, p.log_base, acc)));
                    Ok(1)
                });
            });
            for l in 0..nl {
                su.case(&format!("missing fields {l}"), || {
                    let o = good[l].clone();
                    let n = use_rk(&k, &proto::RelinearizationKey { ksk: None }.encode_to_vec())?
                        + use_g(&k, &proto::RgswCiphertext { ksk0: Some(o.clone()), ksk1: None }.encode_to_vec())?
                        + use_g(&k, &proto::RgswCiphertext { ksk0: None, ksk1: Some(o.clone()) }.encode_to_vec())?
                        + use_g(&k, &proto::RgswCiphertext { ksk0: None, ksk1: None }.encode_to_vec())?
                        + use_ek(&k, &proto::EvaluationKey { gk: vec![proto::GaloisKey { exponent: 3, ksk: None }], ciphertext_level: l as u32, evaluation_key_level: l as u32 }.encode_to_vec())?;
                    if n > 0 {
                        return Err("an object with missing fields was accepted".into());
                    }
                    Ok(5)
                });
                // Galois exponents
                for e in (0..6 * ps.n as u32).chain([u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 3]) {
                    for twice in [false, true] {
                        su.case(&format!("level {l} exponent {e} twice {twice}"), || {
                            let g = proto::GaloisKey { exponent: e, ksk: Some(good[l].clone()) };
                            let mut gk = vec![g.clone()];
                            if twice {
                                gk.push(g);
                            }
                            let x = use_ek(&k, &proto::EvaluationKey { gk, ciphertext_level: l as u32, evaluation_key_level: l as u32 }.encode_to_vec())?;
                            if e % 2 == 0 && x == 1 {
                                return Err("an even Galois element was accepted".into());
                            }
                            Ok(1)
                        });
                    }
                }
                for cl in 0..nl as u32 + 2 {
                    for kl in 0..nl as u32 + 2 {
                        for extra in [vec![], vec![good[l].clone()]] {
                            su.case(&format!("evaluation key {cl}/{kl} holding {} keys of level {l}", extra.len()), || {
                                let gk = extra.iter().map(|x| proto::GaloisKey { exponent: 3, ksk: Some(x.clone()) }).collect();
                                use_ek(&k, &proto::EvaluationKey { gk, ciphertext_level: cl, evaluation_key_level: kl }.encode_to_vec())
                            });
                        }
                    }
                }
            }
        });
    }
    // short strings
    let k = Kit::new(kits().remove(0));
    let maxlen = if r.thorough { 3 } else { 2 };
    r.suite("short-strings", &format!("all byte strings up to length {maxlen} as every kind of object"), |su| {
        let tops: Vec<u32> = (0..256).collect();
        su.par(&tops, |&a| {
            let mut bad = 0u64;
            let mut n = 0u64;
            let mut go = |b: &[u8]| {
                for f in [use_ct as Use, use_pk, use_sk, use_rk, use_ek, use_g] {
                    n += 1;
                    if let Err(e) = f(&k, b) {
                        bad += 1;
                        su.fail(&format!("{b:?}"), &e);
                    }
                }
            };
            if a == 0 {
                go(&[]);
            }
            go(&[a as u8]);
            for b in 0..=255u8 {
                go(&[a as u8, b]);
                if maxlen > 2 {
                    for c in 0..=255u8 {
                        go(&[a as u8, b, c]);
                    }
                }
            }
            su.cases(n);
            su.states(n);
            su.outcome(h64(&(a, bad)));
        });
    });
}
