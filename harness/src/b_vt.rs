//! A11 on ciphertexts: every assignment of the variable-time permission to the parts of the operands of every
//! ciphertext operation. A part of the result may carry the permission only if every operand part it depends on does,
//! and the values computed are the same under every assignment.
use crate::b_core::*;
use crate::b_ops::{ek, er, lv, rgsw, rks};
use crate::core::*;
use fhe::bfv::{dot_product_scalar, Ciphertext, Encoding, Multiplicator, Plaintext};
use fhe::mbfv::{Aggregate, PublicKeySwitchShare, SecretKeySwitchShare};
use fhe_traits::{DeserializeWithContext, FheEncoder, FheEncoderVariableTime, Serialize};
use num_bigint::BigUint;
use std::sync::Arc;

fn flagged(c: &Ciphertext, mask: u32) -> Ciphertext {
    let mut c = c.clone();
    for (i, p) in c.iter_mut().enumerate() {
        if mask >> i & 1 == 1 {
            p.allow_variable_time_computations(tvt());
        } else {
            p.disallow_variable_time_computations();
        }
    }
    c
}
type Deps = Box<dyn Fn(usize) -> Vec<usize> + Sync>;
type Run<'a> = Box<dyn Fn(&[Ciphertext], Option<&Plaintext>) -> Result<Vec<Ciphertext>, String> + Sync + 'a>;
/// operands: parts of each ciphertext operand; deps: for result part k, the indices of the operand parts it depends on
/// (parts numbered through all ciphertext operands; the plaintext, if any, is the last index)
struct Op<'a> {
    name: String,
    cts: Vec<usize>,
    pt: bool,
    deps: Deps,
    run: Run<'a>,
}
pub fn ciphertexts(r: &Rep) {
    let t = r.thorough;
    r.suite("ciphertext-permissions", "every ciphertext operation (sums, differences, negation, plaintext operations in both orders, products, squares, multiplication strategies, relinearisation, rotations, inner sum, expansion, external products in both orders, scalar products of 1 and 2 pairs, level switching, serialisation of polynomials, multiparty switching) x levels x every assignment of the permission to every operand part x plaintexts {encoded, encoded for variable time, decrypted}", |su| {
        let all: Vec<fn() -> Ps> = if t { vec![p0, p1, p2, p3, p5, p6, p7] } else { vec![p0, p1, p5] };
        for f in all {
            let ps = f();
            for l in lv(&ps) {
                level(su, &ps, l);
            }
        }
    });
}
fn level(su: &Suite, ps: &Ps, l: usize) {
    let ms = messages(ps, 12);
    let pool: Vec<Ciphertext> = (0..4).map(|i| fresh(ps, &ms[[10, 1, 4, 9][i]], l, 300 + i as u64, i, false).ct).collect();
    // three-part versions
    let pool3: Vec<Ciphertext> = (0..2).map(|i| &pool[i] * &pool[i + 1]).collect();
    // plaintexts and whether they carry the permission
    let mu: Vec<u64> = (0..ps.n as u64).map(|i| num_traits::ToPrimitive::to_u64(&(BigUint::from(i * i * 7 + 1) % &ps.t)).unwrap()).collect();
    let m: &Msg = &mu.iter().map(|x| BigUint::from(*x)).collect();
    let pub_pt = Plaintext::try_encode_vt(mu.as_slice(), Encoding::poly_at_level(l), &ps.par, tvt()).unwrap();
    let sec_pt = Plaintext::try_encode(m.as_slice(), Encoding::poly_at_level(l), &ps.par).unwrap();
    let dec_pt = {
        // decrypted from a ciphertext every part of which is public
        let c = flagged(&fresh(ps, m, l, 77, 1, false).ct, 3);
        use fhe_traits::FheDecrypter;
        ps.sk.try_decrypt(&c).ok()
    };
    let mut pts: Vec<(&str, &Plaintext, bool)> = vec![("encoded", &sec_pt, false), ("public", &pub_pt, true)];
    if let Some(d) = &dec_pt {
        pts.push(("decrypted", d, false));
    }
    let pts = &pts;
    let (rk, rg) = (rks(ps, l), rgsw(ps, &ms[4], l, 55).ok());
    let ksl: Vec<usize> = (0..=l).filter(|k| *k == l || *k == 0).collect();
    let eks: Vec<(usize, fhe::bfv::EvaluationKey)> = ksl
        .iter()
        .filter(|k| ps.ql(**k).len() > 1 || **k == l)
        .map(|k| {
            (*k, ek(ps, l, *k, |b| {
                b.enable_expansion(ps.n.ilog2() as usize).unwrap();
                if ps.ql(*k).len() > 1 {
                    let _ = b.enable_inner_sum();
                    let _ = b.enable_row_rotation();
                    let _ = b.enable_column_rotation(1);
                }
            }))
        })
        .collect();
    let same = |n: usize, off: usize| -> Vec<usize> { vec![n, off + n] };
    let out = crate::c_mb::Group::new(ps, &[0, 0], 9);
    let own = crate::c_mb::Group::new(ps, &[0, 0], 4);
    let opk = ps.pk(3, 1, false);
    let (own, out, opk) = (&own, &out, &opk);
    let mut ops: Vec<Op> = vec![];
    let one = |x: fhe::Result<Ciphertext>, w: &str| er(x, w).map(|c| vec![c]);
    for p in [2usize, 3] {
        let id = move |k: usize| vec![k];
        ops.push(Op { name: format!("add {p}"), cts: vec![p, p], pt: false, deps: Box::new(move |k| same(k, p)), run: Box::new(|c, _| { let mut x = c[0].clone(); x += &c[1]; Ok(vec![&c[0] + &c[1], c[0].clone() + &c[1], x]) }) });
        ops.push(Op { name: format!("sub {p}"), cts: vec![p, p], pt: false, deps: Box::new(move |k| same(k, p)), run: Box::new(|c, _| { let mut x = c[0].clone(); x -= &c[1]; Ok(vec![&c[0] - &c[1], c[0].clone() - &c[1], x]) }) });
        ops.push(Op { name: format!("neg {p}"), cts: vec![p], pt: false, deps: Box::new(id), run: Box::new(|c, _| Ok(vec![-&c[0], -c[0].clone(), c[0].clone()])) });
        ops.push(Op { name: format!("switch {p}"), cts: vec![p], pt: false, deps: Box::new(id), run: Box::new(move |c, _| {
            let mut o = vec![];
            for to in l..ps.levels() {
                let mut x = c[0].clone();
                er(x.switch_to_level(to), "switch_to_level")?;
                o.push(x);
            }
            Ok(o)
        }) });
        let pd = move |k: usize| if k == 0 { vec![0, p] } else { vec![k] };
        ops.push(Op { name: format!("add plaintext {p}"), cts: vec![p], pt: true, deps: Box::new(pd), run: Box::new(|c, m| { let m = m.unwrap(); let mut x = c[0].clone(); x += m; Ok(vec![&c[0] + m, m + &c[0], c[0].clone() + m, x]) }) });
        ops.push(Op { name: format!("sub plaintext {p}"), cts: vec![p], pt: true, deps: Box::new(pd), run: Box::new(|c, m| { let m = m.unwrap(); let mut x = c[0].clone(); x -= m; Ok(vec![&c[0] - m, c[0].clone() - m, x, m - &c[0]]) }) });
        ops.push(Op { name: format!("mul plaintext {p}"), cts: vec![p], pt: true, deps: Box::new(move |k| vec![k, p]), run: Box::new(|c, m| { let m = m.unwrap(); let mut x = c[0].clone(); x *= m; Ok(vec![&c[0] * m, c[0].clone() * m, x]) }) });
        ops.push(Op { name: format!("square {p}"), cts: vec![p], pt: false, deps: Box::new(move |k| (0..p).filter(|i| k >= *i && k - i < p).collect()), run: Box::new(|c, _| Ok(vec![&c[0] * &c[0]])) });
        ops.push(Op { name: format!("dot 1 x {p}"), cts: vec![p], pt: true, deps: Box::new(move |k| vec![k, p]), run: Box::new(move |c, m| one(dot_product_scalar(c.iter(), std::iter::once(m.unwrap())), "dot product")) });
        ops.push(Op { name: format!("dot 2 x {p}"), cts: vec![p, p], pt: true, deps: Box::new(move |k| vec![k, k + p, 2 * p]), run: Box::new(move |c, m| one(dot_product_scalar(c.iter(), [m.unwrap(), m.unwrap()].into_iter()), "dot product")) });
        // the public plaintext cannot make up for the secret one
        ops.push(Op { name: format!("dot with a public plaintext {p}"), cts: vec![p, p], pt: true, deps: Box::new(move |k| vec![k, k + p, 2 * p]), run: Box::new(move |c, m| one(dot_product_scalar(c.iter(), [pts[1].1, m.unwrap()].into_iter()), "dot product").and_then(|mut v| { v.extend(one(dot_product_scalar(c.iter(), [m.unwrap(), pts[1].1].into_iter()), "dot product")?); Ok(v) })) });
        ops.push(Op { name: format!("wire {p}"), cts: vec![p], pt: false, deps: Box::new(id), run: Box::new(move |c, _| {
            // polynomials read from bytes and put together by the caller: nobody asserted publicness
            let ctx = ps.par.context_at_level(l).unwrap();
            let v = c[0].iter().map(|q| fhe_math::rq::Poly::<fhe_math::rq::Ntt>::from_bytes(&q.to_bytes(), ctx).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>()?;
            one(Ciphertext::new(v, &ps.par), "ciphertext")
        }) });
    }
    for (a, b) in [(2usize, 2usize), (2, 3)] {
        ops.push(Op { name: format!("mul {a}x{b}"), cts: vec![a, b], pt: false, deps: Box::new(move |k| {
            let mut v: Vec<usize> = (0..a).filter(|i| k >= *i && k - i < b).collect();
            v.extend((0..b).filter(|j| k >= *j && k - j < a).map(|j| a + j));
            v
        }), run: Box::new(|c, _| Ok(vec![&c[0] * &c[1]])) });
    }
    // multiplication strategies and relinearisation
    for (k, rk) in &rk {
        let k = *k;
        ops.push(Op { name: format!("relinearise key level {k}"), cts: vec![3], pt: false, deps: Box::new(|k| vec![k, 2]), run: Box::new(move |c, _| { let mut x = c[0].clone(); er(rk.relinearizes(&mut x), "relinearises")?; Ok(vec![x]) }) });
        for sw in [false, true] {
            if sw && l + 1 == ps.levels() {
                continue;
            }
            ops.push(Op { name: format!("multiplicator key level {k} switching {sw}"), cts: vec![2, 2], pt: false, deps: Box::new(|k| if k == 0 { vec![0, 2, 1, 3] } else { vec![0, 1, 2, 3] }), run: Box::new(move |c, _| {
                let mut m = er(Multiplicator::default(rk), "multiplicator")?;
                if sw {
                    er(m.enable_mod_switching(), "switching")?;
                }
                one(m.multiply(&c[0], &c[1]), "multiply")
            }) });
        }
    }
    for (k, e) in &eks {
        let d = |k: usize| if k == 0 { vec![0, 1] } else { vec![1] };
        for (name, g) in [
            ("rows", Box::new(move |c: &Ciphertext| e.rotates_rows(c).map(|x| vec![x])) as Box<dyn Fn(&Ciphertext) -> fhe::Result<Vec<Ciphertext>> + Sync>),
            ("columns", Box::new(move |c: &Ciphertext| e.rotates_columns_by(c, 1).map(|x| vec![x]))),
            ("inner sum", Box::new(move |c: &Ciphertext| e.computes_inner_sum(c).map(|x| vec![x]))),
            ("expansion 2", Box::new(move |c: &Ciphertext| e.expands(c, 2))),
            ("expansion n", Box::new(move |c: &Ciphertext| e.expands(c, ps.n))),
        ] {
            let need = match name {
                "rows" => e.supports_row_rotation(),
                "columns" => e.supports_column_rotation_by(1),
                "inner sum" => e.supports_inner_sum(),
                _ => e.supports_expansion(ps.n.ilog2() as usize),
            };
            if need {
                ops.push(Op { name: format!("{name} key level {k}"), cts: vec![2], pt: false, deps: Box::new(d), run: Box::new(move |c, _| er(g(&c[0]), name)) });
            }
        }
    }
    if let Some(rg) = &rg {
        ops.push(Op { name: "external product".into(), cts: vec![2], pt: false, deps: Box::new(|_| vec![0, 1]), run: Box::new(move |c, _| Ok(vec![&c[0] * rg, rg * &c[0]])) });
    }
    // multiparty switching: a share is public once made, so only the ciphertext part it is added to counts
    ops.push(Op { name: "secret key switching".into(), cts: vec![2], pt: false, deps: Box::new(|k| vec![k]), run: Box::new(move |c, _| {
        let a = Arc::new(c[0].clone());
        let sh: Vec<_> = (0..2).map(|i| SecretKeySwitchShare::new(&own.sks[i], &out.sks[i], a.clone(), &mut rng(i as u64))).collect::<fhe::Result<_>>().map_err(|e| e.to_string())?;
        one(Ciphertext::from_shares(sh), "aggregation")
    }) });
    ops.push(Op { name: "public key switching".into(), cts: vec![2], pt: false, deps: Box::new(|k| if k == 0 { vec![0] } else { vec![] }), run: Box::new(move |c, _| {
        let a = Arc::new(c[0].clone());
        let sh: Vec<_> = (0..2).map(|i| PublicKeySwitchShare::new(&own.sks[i], opk, &a, &mut rng(i as u64))).collect::<fhe::Result<_>>().map_err(|e| e.to_string())?;
        one(Ciphertext::from_shares(sh), "aggregation")
    }) });
    let idx: Vec<usize> = (0..ops.len()).collect();
    let ops = &ops;
    let (pool, pool3) = (&pool, &pool3);
    su.par(&idx, |&i| {
        let op = &ops[i];
        let base: Vec<Ciphertext> = op.cts.iter().enumerate().map(|(j, p)| if *p == 2 { pool[j].clone() } else { pool3[j].clone() }).collect();
        let bits: usize = op.cts.iter().sum();
        let mut reference: Option<Vec<Vec<Vec<u64>>>> = None;
        for mask in 0..1u32 << bits {
            for (pn, pt, pf) in pts.iter().take(if op.pt { 3 } else { 1 }) {
                su.case(&format!("{} level {l} {} permissions {mask:b} plaintext {pn}", ps.name, op.name), || {
                    let mut off = 0;
                    let args: Vec<Ciphertext> = base.iter().map(|c| { let x = flagged(c, mask >> off); off += c.len(); x }).collect();
                    let outs = (op.run)(&args, op.pt.then_some(*pt))?;
                    let ok = |j: usize| if j == bits { *pf } else { mask >> j & 1 == 1 };
                    for (o, c) in outs.iter().enumerate() {
                        for (k, p) in c.iter().enumerate() {
                            su.outcome(h64(&(i, o, k, p.allows_variable_time_computations())));
                            if p.allows_variable_time_computations() && (op.deps)(k).iter().any(|j| !ok(*j)) {
                                return Err(format!("part {k} of result {o} carries the permission although not every operand part it depends on does"));
                            }
                        }
                    }
                    let rows: Vec<Vec<Vec<u64>>> = outs.iter().map(ct_rows).collect();
                    match &reference {
                        None => reference = Some(rows),
                        Some(r) if *r != rows => return Err("the values depend on the permissions".into()),
                        _ => (),
                    }
                    Ok(outs.len() as u64)
                });
            }
        }
    });
}
