//! A04 over every ordered list of moduli: each operation in each form, and each scalar near anything the list defines.
use crate::a_poly::*;
use crate::core::*;
use crate::model::*;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product, traits::TryConvertFrom};
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use std::sync::Arc;

type Rows = Vec<Vec<u64>>;
/// every ordered choice of 1..=k different primes of the pool
fn lists(pool: &[u64], k: usize) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![];
    let mut last: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for l in &last {
            for p in pool.iter().filter(|p| !l.contains(p)) {
                let mut m = l.clone();
                m.push(*p);
                next.push(m);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn scalars(q: &[u64]) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let big = prod(q);
    let mut v = vec![BigUint::from(0u32), one.clone(), BigUint::from(2u32)];
    let mut near = |x: BigUint| {
        v.push(&x - 1u32);
        v.push(&x + 1u32);
        v.push(x);
    };
    for i in 0..q.len() {
        near(BigUint::from(q[i]));
        near(BigUint::from(q[i]) * 2u32);
        near(BigUint::from(q[i] / 2 + 1));
        for j in 0..i {
            near(BigUint::from(q[i]) * q[j]);
        }
        near(&big / q[i]);
    }
    near(big.clone());
    near(&big * &big);
    near(&big / 2u32 + 1u32);
    for k in (1..=big.bits() as usize + 66).step_by(if q.len() > 2 { 7 } else { 3 }).chain([16, 32, 62, 63, 64, 65, 127, 128]) {
        near(&one << k);
    }
    v.sort();
    v.dedup();
    v
}
pub fn a04_shapes(r: &Rep) {
    let t = r.thorough;
    let n = 8;
    let p62 = ntt_primes(62, 2 * n as u64, 2);
    let mut pool = vec![17, 113, ntt_primes(20, 16, 1)[0], ntt_primes(41, 16, 1)[0], p62[0], p62[1]];
    if t {
        pool.extend([97, ntt_primes(33, 16, 1)[0], ntt_primes(50, 16, 1)[0]]);
    }
    let ls = lists(&pool, if t { 5 } else { 4 });
    let bound = format!("every ordered list of 1 to {} different moduli of {pool:?} (N=8): every operation, form, representation and timing once on dense and extreme operands; every scalar that is 0, 1, 2, or at, one below or one above a modulus, half or twice it, a product of some or all of them, its square, or a power of two", if t { 5 } else { 4 });
    r.suite("shapes", &bound, |s| {
        s.par(&ls, |q| {
            let ctx = Context::new_arc(q, n).unwrap();
            let mut l = Lcg(h64(q));
            let dense: Rows = q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect();
            let ext: Rows = q.iter().enumerate().map(|(i, p)| (0..n).map(|j| match (i + j) % 4 { 0 => p - 1, 1 => 0, 2 => p / 2, _ => p / 2 + 1 }).collect()).collect();
            let top: Rows = q.iter().map(|p| vec![p - 1; n]).collect();
            for (name, x, y) in [("dense*ext", &dense, &ext), ("ext*top", &ext, &top), ("top*dense", &top, &dense), ("top*top", &top, &top)] {
                for v in [false, true] {
                    s.case(&format!("{q:?} {name} vt={v}"), || ops(&ctx, q, n, x, y, v));
                }
            }
            for v in [false, true] {
                for k in scalars(q) {
                    s.case(&format!("{q:?} scalar {k} vt={v}"), || {
                        let p = pb(&ctx, &dense, v);
                        let w = m_scal(&dense, &k, q);
                        let z = p.clone().into_ntt();
                        let mut a = z.clone();
                        a *= &k;
                        let mut b = p.clone();
                        b *= &k;
                        if coeffs(&a.into_power_basis()) != w || coeffs(&(&z * &k).into_power_basis()) != w || coeffs(&(&k * &z).into_power_basis()) != w {
                            return Err("wrong multiple of a transformed polynomial".into());
                        }
                        if coeffs(&b) != w || coeffs(&(&p * &k)) != w || coeffs(&(&k * &p)) != w {
                            return Err("wrong multiple".into());
                        }
                        Ok(6)
                    });
                }
            }
            s.outcome(h64(q));
        });
    });
}
fn ops(ctx: &Arc<Context>, q: &[u64], n: usize, x: &Rows, y: &Rows, v: bool) -> Result<u64, String> {
    let e = |e: fhe_math::Error| e.to_string();
    let (px, py) = (pb(ctx, x, v), pb(ctx, y, v));
    let (nx, ny) = (px.clone().into_ntt(), py.clone().into_ntt());
    let (sx, sy) = (nx.clone().into_ntt_shoup(), ny.clone().into_ntt_shoup());
    let mut k = 0;
    let mut is = |what: &str, got: Rows, want: &Rows| -> Result<(), String> {
        k += 1;
        if &got == want { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
    };
    let back = |p: Poly<Ntt>| coeffs(&p.into_power_basis());
    // there and back
    is("transform and back", back(nx.clone()), x)?;
    is("Shoup form and back", coeffs(&sx.clone().into_power_basis()), x)?;
    let w = m_add(x, y, q);
    is("sum", coeffs(&(&px + &py)), &w)?;
    is("transformed sum", back(&nx + &ny), &w)?;
    let mut a = nx.clone();
    a += &ny;
    is("transformed sum in place", back(a), &w)?;
    let w = m_sub(x, y, q);
    is("difference", coeffs(&(&px - &py)), &w)?;
    is("transformed difference", back(&nx - &ny), &w)?;
    let mut a = px.clone();
    a -= &py;
    is("difference in place", coeffs(&a), &w)?;
    let w = m_neg(x, q);
    is("negation", coeffs(&-&px), &w)?;
    is("transformed negation", back(-&nx), &w)?;
    is("owned negation", back(-nx.clone()), &w)?;
    let w = m_mul(x, y, q);
    is("product", back(&nx * &ny), &w)?;
    is("product with Shoup form", back(&nx * &sy), &w)?;
    let mut a = nx.clone();
    a *= &ny;
    is("product in place", back(a), &w)?;
    let mut a = nx.clone();
    a *= &sy;
    is("product with Shoup form in place", back(a), &w)?;
    is("dot product", back(dot_product([nx.clone()].iter(), [ny.clone()].iter()).map_err(e)?), &w)?;
    let x2 = m_mul(x, x, q);
    is("dot product of two", back(dot_product([nx.clone(), nx.clone()].iter(), [ny.clone(), nx.clone()].iter()).map_err(e)?), &m_add(&w, &x2, q))?;
    for ex in (1..2 * n).step_by(2) {
        let w = m_subst(x, ex, q);
        let se = SubstitutionExponent::new(ctx, ex).map_err(e)?;
        is("automorphism", coeffs(&px.substitute(&se).map_err(e)?), &w)?;
        is("transformed automorphism", back(nx.substitute(&se).map_err(e)?), &w)?;
        is("automorphism in Shoup form", coeffs(&sx.substitute(&se).map_err(e)?.into_power_basis()), &w)?;
    }
    for ex in 0..2 * n {
        let mut z = px.clone();
        z.multiply_inverse_power_of_x(ex).map_err(e)?;
        is("product by an inverse power of X", coeffs(&z), &m_invpow(x, ex, q))?;
    }
    // values of the integers represented
    let ints: Vec<BigUint> = (0..n).map(|j| crt(&x.iter().map(|r| r[j]).collect::<Vec<_>>(), q)).collect();
    if Vec::<BigUint>::from(&px) != ints {
        return Err("wrong integers".into());
    }
    is("conversion from integers", coeffs(&Poly::<PowerBasis>::try_convert_from(ints.as_slice(), ctx, v).map_err(e)?), x)?;
    is("transformed conversion from integers", back(Poly::<Ntt>::try_convert_from(ints.as_slice(), ctx, v).map_err(e)?), x)?;
    is("Shoup conversion from integers", coeffs(&Poly::<NttShoup>::try_convert_from(ints.as_slice(), ctx, v).map_err(e)?.into_power_basis()), x)?;
    // words and signed words, reduced and not
    let raw: Vec<u64> = (0..n).map(|j| match j % 4 { 0 => u64::MAX - j as u64, 1 => x[0][j], 2 => *q.iter().max().unwrap() + j as u64, _ => *q.iter().min().unwrap() - 1 }).collect();
    let w: Rows = q.iter().map(|p| raw.iter().map(|z| z % p).collect()).collect();
    is("conversion from words", coeffs(&Poly::<PowerBasis>::try_convert_from(raw.as_slice(), ctx, v).map_err(e)?), &w)?;
    let sg: Vec<i64> = (0..n).map(|j| match j % 5 { 0 => i64::MIN + j as i64, 1 => -(x[0][j] as i64), 2 => -1, 3 => -(*q.iter().max().unwrap() as i64) - 1, _ => i64::MAX }).collect();
    let w: Rows = q.iter().map(|p| sg.iter().map(|z| (*z as i128).rem_euclid(*p as i128) as u64).collect()).collect();
    is("conversion from signed words", coeffs(&Poly::<PowerBasis>::try_convert_from(sg.as_slice(), ctx, v).map_err(e)?), &w)?;
    // one level after the other
    let mut z = px.clone();
    let (mut wz, mut qs) = (x.clone(), q.to_vec());
    while qs.len() > 1 {
        z.switch_down().map_err(e)?;
        wz = m_down(&wz, &qs);
        qs.pop();
        is("switching down", coeffs(&z), &wz)?;
    }
    let big = prod(q);
    if !ints.iter().all(|i| i < &big) || ints.iter().any(|i| i.to_f64().is_none()) {
        return Err("model error".into());
    }
    Ok(k)
}
