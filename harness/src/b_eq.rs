//! B20: equality of the library's objects is exact, and copies are independent.
use crate::a_poly::{coeffs, pb};
use crate::b_core::*;
use crate::b_ops::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, EvaluationKey, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::proto::bfv as proto;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent};
use fhe_traits::{Deserialize, DeserializeParametrized, FheEncoder, Serialize};
use prost::Message;
use std::sync::Arc;

/// All pairs: equal exactly when the keys are, in both directions.
fn pairs<T: PartialEq + Sync, K: PartialEq + Sync>(su: &Suite, what: &str, v: &[(String, T, K)]) {
    let ix: Vec<usize> = (0..v.len()).collect();
    su.par(&ix, |&i| {
        su.case(&format!("{what}: {}", v[i].0), || {
            let mut n = 0u64;
            for j in 0..v.len() {
                let want = v[i].2 == v[j].2;
                let (eq, ne) = (v[i].1 == v[j].1, v[i].1 != v[j].1);
                if eq != want || ne == eq {
                    return Err(format!("== {} is {eq} and != is {ne}, the contents are {}", v[j].0, if want { "the same" } else { "different" }));
                }
                n += want as u64;
            }
            su.outcome(h64(&(what, n)));
            su.transitions(v.len() as u64);
            Ok(1)
        });
    });
}

// ---- polynomials
type Rows = Vec<Vec<u64>>;
/// One residue changed at a time, in every position.
fn variants(base: &Rows, m: &[u64]) -> Vec<(String, Rows)> {
    let mut v = vec![("base".to_string(), base.clone()), ("the same again".to_string(), base.clone())];
    for i in 0..base.len() {
        for j in 0..base[i].len() {
            for (d, n) in [(1u64, "+1"), (m[i] - 1, "-1"), (m[i] / 2, "+q/2")] {
                let mut r = base.clone();
                r[i][j] = ((r[i][j] as u128 + d as u128) % m[i] as u128) as u64;
                v.push((format!("residue {j} of modulus {i} {n}"), r));
            }
        }
    }
    // two coefficients or two rows exchanged
    for i in 0..base.len() {
        let mut r = base.clone();
        r[i].swap(0, 1);
        v.push((format!("coefficients 0 and 1 of modulus {i} exchanged"), r));
    }
    v.push(("zero".into(), base.iter().map(|r| vec![0; r.len()]).collect()));
    v
}
fn base_rows(n: usize, m: &[u64], seed: u64) -> Rows {
    let mut g = Lcg(seed);
    m.iter().map(|q| (0..n).map(|_| g.next() % q).collect()).collect()
}
fn polys(r: &Rep) {
    let s = [ntt_primes(20, 2048, 1)[0], ntt_primes(62, 2048, 1)[0], ntt_primes(41, 2048, 1)[0], ntt_primes(62, 2048, 2)[1]];
    let lists: Vec<Vec<u64>> = vec![vec![s[0]], vec![s[1]], vec![s[0], s[1]], vec![s[1], s[0]], vec![s[1], s[3]], vec![s[0], s[1], s[2]], vec![s[2], s[0], s[1], s[3]]];
    r.suite("polynomials", "seven lists of one to four moduli (and two equal contexts made separately), degrees 8 and 16, in each representation: a polynomial and every polynomial differing from it in one residue, by an exchange, or in the context, all pairs compared", |su| {
        for n in [8usize, 16] {
            for (li, m) in lists.iter().enumerate() {
                let ctxs: Vec<Arc<Context>> = (0..2).map(|_| Arc::new(Context::new(m, n).unwrap())).collect();
                let vs = variants(&base_rows(n, m, 77 + li as u64), m);
                let what = format!("N={n} {m:?}");
                let tag = |i: usize, k: usize, x: &str| (i, format!("{x}, context {k}"));
                let mut a: Vec<(String, Poly<PowerBasis>, Rows)> = vec![];
                let mut b: Vec<(String, Poly<Ntt>, Rows)> = vec![];
                let mut c: Vec<(String, Poly<NttShoup>, Rows)> = vec![];
                for (i, (name, rows)) in vs.iter().enumerate() {
                    let k = (i % 3) / 2;
                    // the timing permission is not part of the value
                    for vt in [false, true] {
                        let (_, nm) = tag(i, k, name);
                        let p = pb(&ctxs[k], rows, vt);
                        a.push((nm.clone(), p.clone(), rows.clone()));
                        b.push((nm.clone(), p.clone().into_ntt(), rows.clone()));
                        c.push((nm, p.into_ntt_shoup(), rows.clone()));
                    }
                }
                pairs(su, &format!("{what} coefficients"), &a);
                pairs(su, &format!("{what} transformed"), &b);
                pairs(su, &format!("{what} multiplicands"), &c);
            }
            // the same numbers in other contexts
            let small: Rows = vec![vec![3; n]];
            let mut v = vec![];
            for (q, d) in [(s[0], n), (s[1], n), (s[2], n), (s[3], n), (s[1], 2 * n)] {
                for _ in 0..2 {
                    let c = Arc::new(Context::new(&[q], d).unwrap());
                    v.push((format!("constant threes modulo {q} of degree {d}"), pb(&c, &vec![vec![3; d]], false), (q, d)));
                }
            }
            assert!(!small.is_empty());
            pairs(su, &format!("N={n} contexts"), &v);
        }
    });
}

// ---- objects with an encoding
/// The content of an encoding, without what is not part of the value: the order of the keys and the timing permission.
fn poly_bytes(b: &mut Vec<u8>) {
    let mut out = vec![];
    let mut i = 0;
    let varint = |b: &[u8], i: &mut usize| -> Option<u64> {
        let mut v = 0u64;
        for s in 0..10 {
            let x = *b.get(*i)?;
            *i += 1;
            v |= ((x & 0x7f) as u64) << (7 * s).min(63);
            if x < 0x80 {
                return Some(v);
            }
        }
        None
    };
    while i < b.len() {
        let at = i;
        let Some(tag) = varint(b, &mut i) else { return };
        match tag & 7 {
            0 => {
                if varint(b, &mut i).is_none() {
                    return;
                }
            }
            2 => {
                let Some(n) = varint(b, &mut i) else { return };
                i += n as usize;
            }
            _ => return,
        }
        if i > b.len() {
            return;
        }
        if tag >> 3 != 4 {
            out.extend_from_slice(&b[at..i]);
        }
    }
    *b = out;
}
fn ksk_norm(k: &mut Option<proto::KeySwitchingKey>) {
    if let Some(k) = k {
        k.c0.iter_mut().chain(&mut k.c1).for_each(poly_bytes);
    }
}
type Norm = fn(&[u8]) -> Vec<u8>;
fn n_ct(b: &[u8]) -> Vec<u8> {
    let mut p = proto::Ciphertext::decode(b).unwrap();
    p.c.iter_mut().for_each(poly_bytes);
    p.encode_to_vec()
}
fn n_pk(b: &[u8]) -> Vec<u8> {
    let mut p = proto::PublicKey::decode(b).unwrap();
    if let Some(c) = &mut p.c {
        c.c.iter_mut().for_each(poly_bytes);
    }
    p.encode_to_vec()
}
fn n_sk(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}
fn n_rk(b: &[u8]) -> Vec<u8> {
    let mut p = proto::RelinearizationKey::decode(b).unwrap();
    ksk_norm(&mut p.ksk);
    p.encode_to_vec()
}
fn n_g(b: &[u8]) -> Vec<u8> {
    let mut p = proto::RgswCiphertext::decode(b).unwrap();
    ksk_norm(&mut p.ksk0);
    ksk_norm(&mut p.ksk1);
    p.encode_to_vec()
}
fn n_ek(b: &[u8]) -> Vec<u8> {
    let mut p = proto::EvaluationKey::decode(b).unwrap();
    p.gk.iter_mut().for_each(|g| ksk_norm(&mut g.ksk));
    p.gk.sort_by_key(|g| g.exponent);
    p.encode_to_vec()
}
/// Every genuine encoding and every accepted one with one bit changed; all pairs (genuine, any) and neighbours.
fn encoded<T>(su: &Suite, ps: &Ps, what: &str, genuine: &[Vec<u8>], norm: Norm, bits: &[u8])
where
    T: PartialEq + Serialize + DeserializeParametrized<Parameters = BfvParameters> + Sync + Send,
{
    let read = |b: &[u8]| guard(|| T::from_bytes(b, &ps.par).ok()).ok().flatten();
    let gs: Vec<(T, Vec<u8>)> = genuine.iter().map(|b| (read(b).unwrap(), norm(b))).collect();
    // the same parameters built separately
    let other = BfvParameters::try_deserialize(&ps.par.to_bytes()).map(Arc::new).unwrap();
    let items: Vec<(usize, usize)> = genuine.iter().enumerate().flat_map(|(g, b)| (0..b.len()).map(move |i| (g, i))).collect();
    su.par(&items, |&(g, i)| {
        su.case(&format!("{what} {g} byte {i}"), || {
            let mut prev: Option<(T, Vec<u8>)> = None;
            let mut n = 0u64;
            for bit in bits {
                let mut c = genuine[g].clone();
                c[i] ^= bit;
                let Some(x) = read(&c) else { continue };
                let nx = norm(&x.to_bytes());
                for (h, (y, ny)) in gs.iter().enumerate() {
                    let want = nx == *ny;
                    if (x == *y) != want || (*y == x) != want || (x != *y) == want {
                        return Err(format!("with {bit:#x} changed it is {} to object {h}, the contents are {}", if x == *y { "equal" } else { "unequal" }, if want { "the same" } else { "different" }));
                    }
                    n += 1;
                }
                if let Some((y, ny)) = &prev {
                    if (x == *y) != (nx == *ny) {
                        return Err(format!("with {bit:#x} changed it compares wrongly with the change before"));
                    }
                }
                prev = Some((x, nx));
            }
            su.transitions(n);
            su.outcome(h64(&(what, g, n)));
            Ok(1)
        });
    });
    for (g, b) in genuine.iter().enumerate() {
        su.case(&format!("{what} {g} under equal parameters"), || {
            let x = T::from_bytes(b, &other).map_err(|_| "an encoding is refused under equal parameters".to_string())?;
            for (h, (y, ny)) in gs.iter().enumerate() {
                if (x == *y) != (gs[g].1 == *ny) {
                    return Err(format!("compares wrongly with object {h}"));
                }
            }
            Ok(1)
        });
    }
}
fn objects(r: &Rep) {
    let bits: Vec<u8> = if r.thorough { (0..8).map(|i| 1 << i).collect() } else { vec![1, 0x10, 0x80] };
    for ps in [
        Ps::new("n8-t17-3x20", 8, bu(17), Mods::Sizes(&[20, 20, 20]), 1, Secret::Random(51)),
        Ps::new("n8-t5-2x62", 8, bu(5), Mods::Sizes(&[62, 62]), 2, Secret::Random(52)),
        Ps::new("n16-t97-41,30", 16, bu(97), Mods::Sizes(&[41, 30]), 3, Secret::Random(54)),
    ] {
        r.suite(&format!("objects-{}", ps.name), &format!("ciphertexts of two to four parts, seeded and not, public, secret, relinearisation and evaluation keys and RGSW ciphertexts of every level, in their encoding with each of the bits {bits:?} of every byte changed: whatever is accepted is compared with every genuine object of its kind and with its neighbour, and under equal parameters built separately"), |su| {
            let m = messages(&ps, 12)[10].clone();
            let mut cts = vec![];
            let mut rks = vec![];
            let mut eks = vec![];
            let mut gs = vec![];
            for l in 0..ps.levels() {
                let a = ps.enc_seeded(&m, l, 7, &ps.errs(1), true);
                let b = ps.enc_seeded(&m, l, 7, &ps.errs(1), false);
                let c = &a * &b;
                cts.extend([a.to_bytes(), b.to_bytes(), (&c * &a).to_bytes(), c.to_bytes()]);
                for k in 0..=l {
                    if let Ok(x) = RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(9)) {
                        rks.push(x.to_bytes());
                    }
                    for row in [false, true] {
                        if let Ok(Ok(x)) = guard(|| {
                            let mut b = fhe::bfv::EvaluationKeyBuilder::new_leveled(&ps.sk, l, k)?;
                            if row { b.enable_row_rotation()?; }
                            b.enable_column_rotation(1)?;
                            b.build(&mut rng(9))
                        }) {
                            eks.push(x.to_bytes());
                        }
                    }
                }
                gs.push(rgsw(&ps, &m, l, 4).unwrap().to_bytes());
            }
            encoded::<Ciphertext>(su, &ps, "ciphertext", &cts, n_ct, &bits);
            encoded::<PublicKey>(su, &ps, "public key", &[ps.pk(5, 1, true).to_bytes(), ps.pk(5, 1, false).to_bytes(), ps.pk(6, 1, true).to_bytes()], n_pk, &bits);
            encoded::<SecretKey>(su, &ps, "secret key", &[ps.sk.to_bytes(), SecretKey::random(&ps.par, &mut rng(4)).to_bytes()], n_sk, &bits);
            encoded::<RelinearizationKey>(su, &ps, "relinearisation key", &rks, n_rk, &bits);
            encoded::<EvaluationKey>(su, &ps, "evaluation key", &eks, n_ek, &bits);
            encoded::<RGSWCiphertext>(su, &ps, "RGSW ciphertext", &gs, n_g, &bits);
        });
    }
    // whole objects under parameters differing in one respect
    r.suite("parameters", "a ciphertext, a plaintext and a secret key with the same numbers under parameters differing in the plaintext modulus, the variance or the number of moduli", |su| {
        let q = ntt_primes(30, 16, 3);
        let mut v: Vec<(String, Ciphertext, (usize, usize))> = vec![];
        let mut w: Vec<(String, Plaintext, usize)> = vec![];
        let mut x: Vec<(String, SecretKey, usize)> = vec![];
        for (i, (t, m, var)) in [(17u64, &q[..2], 1usize), (19, &q[..2], 1), (17, &q[..2], 2), (17, &q[..3], 1), (17, &q[1..3], 1)].into_iter().enumerate() {
            for twice in 0..2 {
                let ps = Ps::with("", mk_par(8, &bu(t), &Mods::List(m), var).unwrap(), var, Secret::Random(5));
                for l in 0..ps.levels() {
                    let ctx = ps.par.context_at_level(l).unwrap();
                    let rows: Rows = ps.ql(l).iter().map(|_| vec![5; 8]).collect();
                    let p = pb(ctx, &rows, true).into_ntt();
                    v.push((format!("parameters {i}.{twice} level {l}"), Ciphertext::new(vec![p.clone(), p], &ps.par).unwrap(), (i, l)));
                }
                w.push((format!("parameters {i}.{twice}"), Plaintext::try_encode(&[1u64, 2, 3], Encoding::poly(), &ps.par).unwrap(), i));
                x.push((format!("parameters {i}.{twice}"), sk_from(&ps.par, &[1, 0, -1, 0, 0, 1, 1, -1]), i));
            }
        }
        pairs(su, "ciphertext", &v);
        pairs(su, "plaintext", &w);
        pairs(su, "secret key", &x);
    });
    r.suite("plaintexts", "plaintexts of every level and encoding, one value changed at a time in every position: all pairs; a value of encoded zeros and prefixes of it", |su| {
        for ps in [p0(), Ps::new("n8-t97-2x40", 8, bu(97), Mods::Sizes(&[40, 40]), 3, Secret::Random(5))] {
            let t: u64 = (&ps.t).try_into().unwrap();
            let base: Vec<u64> = (0..ps.n as u64).map(|i| (i * i + 3) % t).collect();
            let mut v = vec![];
            for l in 0..ps.levels() {
                for e in [Encoding::poly_at_level(l), Encoding::simd_at_level(l)] {
                    let mut vals = vec![base.clone(), base.clone(), vec![], vec![0; ps.n], vec![0; 3], vec![1]];
                    for j in 0..ps.n {
                        for d in [1, t - 1, t / 2] {
                            let mut b = base.clone();
                            b[j] = (b[j] + d) % t;
                            vals.push(b);
                        }
                    }
                    for x in vals {
                        if let Ok(p) = Plaintext::try_encode(&x, e.clone(), &ps.par) {
                            let mut full = x.clone();
                            full.resize(ps.n, 0);
                            v.push((format!("{e:?} {x:?}"), p, (format!("{e:?}"), full)));
                        }
                    }
                }
            }
            pairs(su, &ps.name, &v);
        }
    });
}

// ---- objects made of several others
fn composed(r: &Rep) {
    r.suite("parts", "ciphertexts of two to four parts, every list of parts over three polynomials (one zero) at every level, with and without a seed, and the empty ciphertext, each made twice: all pairs", |su| {
        for ps in [Ps::new("n8-t17-3x20", 8, bu(17), Mods::Sizes(&[20, 20, 20]), 1, Secret::Random(51)), p2()] {
            let mut v: Vec<(String, Ciphertext, (usize, usize, Vec<usize>))> = vec![];
            for twice in 0..2 {
                v.push((format!("empty {twice}"), Ciphertext::zero(&ps.par), (0, 0, vec![])));
                for l in 0..ps.levels() {
                    let ctx = ps.par.context_at_level(l).unwrap();
                    let pool: Vec<Poly<Ntt>> = (0..3u64).map(|i| if i == 2 { Poly::zero(ctx) } else { pb(ctx, &base_rows(ps.n, ps.ql(l), 40 + i), true).into_ntt() }).collect();
                    for k in 2..=4 {
                        for ix in all_tuples(3, k) {
                            v.push((format!("level {l} parts {ix:?} {twice}"), Ciphertext::new(ix.iter().map(|i| pool[*i].clone()).collect(), &ps.par).unwrap(), (l, 0, ix)));
                        }
                    }
                    for s in 0..3u64 {
                        v.push((format!("level {l} seeded {s} {twice}"), ps.enc_seeded(&ps.zero_msg(), l, 5 + s, &ps.errs(0), true), (l, 1, vec![s as usize])));
                    }
                }
            }
            pairs(su, &ps.name, &v);
        }
    });
    r.suite("subsets", "evaluation keys holding every subset of four keys, written in either order, at two level pairs; RGSW ciphertexts made of every pair of six halves: all pairs", |su| {
        let ps = Ps::new("n8-t17-3x20", 8, bu(17), Mods::Sizes(&[20, 20, 20]), 1, Secret::Random(51));
        let mut v: Vec<(String, EvaluationKey, (usize, usize, usize))> = vec![];
        for (l, k) in [(0, 0), (1, 0), (1, 1)] {
            let e = ek(&ps, l, k, |b| {
                b.enable_row_rotation().unwrap().enable_column_rotation(1).unwrap().enable_column_rotation(2).unwrap().enable_column_rotation(3).unwrap();
            });
            let mut p = proto::EvaluationKey::decode(e.to_bytes().as_slice()).unwrap();
            p.gk.sort_by_key(|g| g.exponent);
            let all = p.gk.clone();
            for s in 0..1usize << all.len() {
                for back in [false, true] {
                    p.gk = all.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, g)| g.clone()).collect();
                    if back {
                        p.gk.reverse();
                    }
                    if let Ok(x) = EvaluationKey::from_bytes(&p.encode_to_vec(), &ps.par) {
                        v.push((format!("levels {l}/{k} subset {s:#b} reversed {back}"), x, (l, k, s)));
                    }
                }
            }
        }
        pairs(su, "evaluation keys", &v);
        let mut w: Vec<(String, RGSWCiphertext, (usize, usize, usize))> = vec![];
        for l in 0..ps.levels() {
            let hs: Vec<_> = messages(&ps, 12)[8..11].iter().flat_map(|m| {
                let p = proto::RgswCiphertext::decode(rgsw(&ps, m, l, 4).unwrap().to_bytes().as_slice()).unwrap();
                [p.ksk0.unwrap(), p.ksk1.unwrap()]
            }).collect();
            for twice in 0..2 {
                for ix in all_tuples(hs.len(), 2) {
                    let p = proto::RgswCiphertext { ksk0: Some(hs[ix[0]].clone()), ksk1: Some(hs[ix[1]].clone()) };
                    if let Ok(x) = RGSWCiphertext::from_bytes(&p.encode_to_vec(), &ps.par) {
                        // halves may coincide
                        let id = |i: usize| (0..hs.len()).find(|j| hs[*j] == hs[i]).unwrap();
                        w.push((format!("level {l} halves {ix:?} {twice}"), x, (l, id(ix[0]), id(ix[1]))));
                    }
                }
            }
        }
        pairs(su, "RGSW ciphertexts", &w);
    });
}

// ---- copies
fn copies(r: &Rep) {
    r.suite("copies", "ciphertexts of two to four parts at every level, polynomials in each representation: every in-place operation on a copy leaves the original as it was, and the other way round", |su| {
        for ps in [p0(), p2()] {
            let m = messages(&ps, 12)[10].clone();
            for l in lv(&ps) {
                let a = ps.enc_seeded(&m, l, 7, &ps.errs(1), true);
                let b = ps.enc_seeded(&m, l, 8, &ps.errs(1), false);
                let c3 = &a * &b;
                let c4 = &c3 * &a;
                let pt = ps.plaintext(&m, l);
                let rk = RelinearizationKey::new_leveled(&ps.sk, l, 0, &mut rng(3)).ok();
                for c in [&a, &b, &c3, &c4] {
                    type F<'a> = (&'a str, Box<dyn Fn(&mut Ciphertext) + 'a>);
                    let ops: Vec<F> = vec![
                        ("+= itself", Box::new(|x| { let y = x.clone(); *x += &y; })),
                        ("-= itself", Box::new(|x| { let y = x.clone(); *x -= &y; })),
                        ("+= plaintext", Box::new(|x| *x += &pt)),
                        ("-= plaintext", Box::new(|x| *x -= &pt)),
                        ("*= plaintext", Box::new(|x| *x *= &pt)),
                        ("negation", Box::new(|x| *x = -std::mem::replace(x, Ciphertext::zero(&ps.par)))),
                        ("a part exchanged", Box::new(|x| x.swap(0, 1))),
                        ("a part dropped in place", Box::new(|x| x[0] = x[1].clone())),
                        ("a part scaled", Box::new(|x| { let y = x[1].clone(); x[0] *= &y; })),
                        ("switching", Box::new(|x| { let _ = x.switch_down(); })),
                        ("switching to the last level", Box::new(|x| { let _ = x.switch_to_level(ps.levels() - 1); })),
                        ("relinearisation", Box::new(|x| { if let Some(k) = &rk { let _ = k.relinearizes(x); } })),
                    ];
                    for (name, f) in &ops {
                        su.case(&format!("{} level {l} parts {} {name}", ps.name, c.len()), || {
                            let orig = c.clone();
                            let before = (orig.to_bytes(), ct_rows(&orig));
                            let mut copy = orig.clone();
                            if copy != orig || copy.to_bytes() != before.0 {
                                return Err("a copy differs".into());
                            }
                            f(&mut copy);
                            if (orig.to_bytes(), ct_rows(&orig)) != before {
                                return Err("working on a copy changed the original".into());
                            }
                            // the other way round
                            let mut orig = orig;
                            let kept = orig.clone();
                            f(&mut orig);
                            if (kept.to_bytes(), ct_rows(&kept)) != before {
                                return Err("working on the original changed a copy".into());
                            }
                            if orig != copy || ct_rows(&orig) != ct_rows(&copy) {
                                return Err("the same operation on a copy and on the original gives different results".into());
                            }
                            drop(orig);
                            if ct_rows(&kept) != before.1 {
                                return Err("dropping the original changed a copy".into());
                            }
                            su.outcome(h64(&(name, c.len())));
                            Ok(3)
                        });
                    }
                }
            }
        }
        let m = [ntt_primes(20, 64, 1)[0], ntt_primes(62, 64, 1)[0], ntt_primes(41, 64, 1)[0]];
        let ctx = Arc::new(Context::new(&m, 16).unwrap());
        let p = pb(&ctx, &base_rows(16, &m, 5), false);
        fn one<R: fhe_math::rq::RepresentationTag>(su: &Suite, what: &str, p: &Poly<R>, f: &dyn Fn(&mut Poly<R>)) {
            su.case(&format!("polynomial {what}"), || {
                let orig = p.clone();
                let rows = coeffs(&orig);
                let mut copy = orig.clone();
                if copy != orig {
                    return Err("a copy differs".into());
                }
                f(&mut copy);
                if coeffs(&orig) != rows || orig != *p {
                    return Err("working on a copy changed the original".into());
                }
                let mut orig = orig;
                let kept = orig.clone();
                f(&mut orig);
                if kept != *p || coeffs(&kept) != rows {
                    return Err("working on the original changed a copy".into());
                }
                if orig != copy {
                    return Err("the same operation on a copy and on the original gives different results".into());
                }
                Ok(3)
            });
        }
        use zeroize::Zeroize;
        let n = p.clone().into_ntt();
        let h = p.clone().into_ntt_shoup();
        one(su, "coefficients +=", &p, &|x| { let y = x.clone(); *x += &y; });
        one(su, "coefficients -=", &p, &|x| { let y = x.clone(); *x -= &y; });
        one(su, "coefficients x^-3", &p, &|x| x.multiply_inverse_power_of_x(3).unwrap());
        one(su, "coefficients switching", &p, &|x| x.switch_down().unwrap());
        one(su, "coefficients erased", &p, &|x| x.zeroize());
        one(su, "transformed *=", &n, &|x| { let y = x.clone(); *x *= &y; });
        one(su, "transformed *= multiplicand", &n, &|x| *x *= &h);
        one(su, "transformed erased", &n, &|x| x.zeroize());
        one(su, "multiplicand erased", &h, &|x| x.zeroize());
        one(su, "transformed substituted", &n, &|x| *x = x.substitute(&SubstitutionExponent::new(&ctx, 3).unwrap()).unwrap());
    });
}

pub fn b20(r: &Rep) {
    r.assume("the timing permission of a polynomial and the order of the keys inside an evaluation key are not part of its value; plaintexts without a known encoding compare by content");
    polys(r);
    objects(r);
    composed(r);
    copies(r);
}
