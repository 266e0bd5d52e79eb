//! Reference model of the scheme: plaintext ring, exact phase with a known secret, sound worst-case noise
//! bounds, and helpers to build deterministic parameter sets, keys and ciphertexts.
use crate::a_poly::{coeffs, pb, rows_of, vt};
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Ciphertext, Plaintext, PublicKey, SecretKey};
use fhe::proto::bfv as proto;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Ntt, Poly, PowerBasis};
use fhe_traits::{DeserializeParametrized, FheDecrypter, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};
use prost::Message;
use std::sync::Arc;

pub type Msg = Vec<BigUint>;

pub fn bu(x: u64) -> BigUint {
    BigUint::from(x)
}

#[derive(Clone, Debug)]
pub enum Secret {
    /// the given coefficients
    List(Vec<i64>),
    Random(u64),
    Extreme,
    Sparse,
}
pub enum Mods<'a> {
    Sizes(&'a [usize]),
    List(&'a [u64]),
}

/// A parameter set with a known secret.
pub struct Ps {
    pub name: String,
    pub par: Arc<BfvParameters>,
    pub n: usize,
    pub t: BigUint,
    pub q: Vec<u64>,
    pub var: u64,
    /// bound on one sampled coefficient
    pub b: u64,
    pub s: Vec<i64>,
    pub sk: SecretKey,
    /// s1[k] = sum over j < k of the 1-norm of s^j
    pub s1: Vec<BigUint>,
}

pub fn mk_par(n: usize, t: &BigUint, m: &Mods, var: usize) -> fhe::Result<Arc<BfvParameters>> {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus_biguint(t.clone()).set_variance(var);
    match m {
        Mods::Sizes(s) => b.set_moduli_sizes(s),
        Mods::List(l) => b.set_moduli(l),
    };
    b.build_arc()
}
pub fn sk_from(par: &Arc<BfvParameters>, s: &[i64]) -> SecretKey {
    let b = proto::SecretKey { coeffs: s.to_vec() }.encode_to_vec();
    SecretKey::from_bytes(&b, par).unwrap()
}
pub fn sk_coeffs(sk: &SecretKey) -> Vec<i64> {
    proto::SecretKey::decode(sk.to_bytes().as_slice()).unwrap().coeffs
}
/// schoolbook negacyclic product over the integers
pub fn zmul(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let mut o = vec![BigInt::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            let t = &a[i] * &b[j];
            if i + j < n { o[i + j] += t } else { o[i + j - n] -= t }
        }
    }
    o
}
pub fn norm1(a: &[BigInt]) -> BigUint {
    a.iter().map(|x| x.abs().to_biguint().unwrap()).sum()
}

impl Ps {
    pub fn new(name: &str, n: usize, t: BigUint, m: Mods, var: usize, secret: Secret) -> Ps {
        let par = mk_par(n, &t, &m, var).unwrap_or_else(|e| panic!("parameter set {name}: {e}"));
        Self::with(name, par, var, secret)
    }
    pub fn with(name: &str, par: Arc<BfvParameters>, var: usize, secret: Secret) -> Ps {
        let n = par.degree();
        let b = 2 * var as i64;
        let s: Vec<i64> = match secret {
            Secret::Random(seed) => sk_coeffs(&SecretKey::random(&par, &mut rng(seed))),
            Secret::Extreme => (0..n).map(|i| if i % 3 == 1 { -b } else { b }).collect(),
            Secret::List(v) => v,
            Secret::Sparse => (0..n).map(|i| if i == 1 { 1 } else { 0 }).collect(),
        };
        let sk = sk_from(&par, &s);
        let sz: Vec<BigInt> = s.iter().map(|x| BigInt::from(*x)).collect();
        let mut pw: Vec<BigInt> = vec![BigInt::zero(); n];
        pw[0] = BigInt::one();
        let mut s1 = vec![BigUint::zero()];
        for _ in 0..9 {
            let l = s1.last().unwrap() + norm1(&pw);
            s1.push(l);
            if n <= 64 {
                pw = zmul(&pw, &sz);
            } else {
                // the 1-norm is submultiplicative
                pw = vec![BigInt::from(norm1(&pw) * norm1(&sz))];
                pw.resize(n, BigInt::zero());
            }
        }
        Ps { name: name.into(), n, t: par.plaintext_big().clone(), q: par.moduli().to_vec(), var: var as u64, b: b as u64, s, sk, s1, par }
    }
    pub fn levels(&self) -> usize {
        self.q.len()
    }
    pub fn ql(&self, level: usize) -> &[u64] {
        &self.q[..self.q.len() - level]
    }
    pub fn qq(&self, level: usize) -> BigUint {
        prod(self.ql(level))
    }
    pub fn tb(&self) -> BigInt {
        bi(&self.t)
    }
    // ---- plaintext ring
    pub fn padd(&self, a: &Msg, b: &Msg) -> Msg {
        a.iter().zip(b).map(|(x, y)| (x + y) % &self.t).collect()
    }
    pub fn psub(&self, a: &Msg, b: &Msg) -> Msg {
        a.iter().zip(b).map(|(x, y)| (x + &self.t - y) % &self.t).collect()
    }
    pub fn pneg(&self, a: &Msg) -> Msg {
        a.iter().map(|x| (&self.t - x) % &self.t).collect()
    }
    pub fn pmul(&self, a: &Msg, b: &Msg) -> Msg {
        if let Some(t) = self.t.to_u64() {
            let f = |v: &Msg| v.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>();
            return negmul(&f(a), &f(b), t).into_iter().map(bu).collect();
        }
        let z = |v: &Msg| v.iter().map(bi).collect::<Vec<_>>();
        zmul(&z(a), &z(b)).iter().map(|x| modp(x, &self.t)).collect()
    }
    pub fn psub_exp(&self, a: &Msg, e: usize) -> Msg {
        let n = self.n;
        let mut o = vec![BigUint::zero(); n];
        for j in 0..n {
            let k = (j * (e % (2 * n))) % (2 * n);
            let v = if k >= n { (&self.t - &a[j]) % &self.t } else { a[j].clone() };
            o[k % n] = (&o[k % n] + v) % &self.t;
        }
        o
    }
    pub fn zero_msg(&self) -> Msg {
        vec![BigUint::zero(); self.n]
    }
    pub fn msg(&self, v: &[u64]) -> Msg {
        let mut m: Msg = v.iter().map(|x| bu(*x) % &self.t).collect();
        m.resize(self.n, BigUint::zero());
        m
    }
    /// scaled message (Q m - [Q m]_t) / t modulo Q
    pub fn scaled(&self, m: &Msg, level: usize) -> Vec<BigUint> {
        let q = self.qq(level);
        m.iter().map(|x| { let y = &q * x; (&y - &y % &self.t) / &self.t % &q }).collect()
    }
    pub fn to_rows(&self, v: &[BigUint], level: usize) -> Vec<Vec<u64>> {
        self.ql(level).iter().map(|q| v.iter().map(|x| (x % *q).to_u64().unwrap()).collect()).collect()
    }
    pub fn plaintext(&self, m: &Msg, level: usize) -> Plaintext {
        use fhe::bfv::Encoding;
        use fhe_traits::FheEncoder;
        Plaintext::try_encode(m.as_slice(), Encoding::poly_at_level(level), &self.par).unwrap()
    }
    /// Deterministic seeded secret-key encryption built from the definition, with the given error coefficients.
    pub fn enc_seeded(&self, m: &Msg, level: usize, seed: u64, e: &[i64], seeded: bool) -> Ciphertext {
        let ctx = self.par.context_at_level(level).unwrap();
        let mut sd = [0u8; 32];
        sd[..8].copy_from_slice(&seed.to_le_bytes());
        sd[8] = 0xA5;
        let a = coeffs(&Poly::<Ntt>::random_from_seed(ctx, sd).into_power_basis());
        let sm = self.to_rows(&self.scaled(m, level), level);
        let rows: Vec<Vec<u64>> = self
            .ql(level)
            .iter()
            .enumerate()
            .map(|(i, &q)| {
                let s: Vec<u64> = self.s.iter().map(|x| x.rem_euclid(q as i64) as u64).collect();
                let p = negmul(&a[i], &s, q);
                (0..self.n).map(|j| ((sm[i][j] as i128 + e[j] as i128 - p[j] as i128).rem_euclid(q as i128)) as u64).collect()
            })
            .collect();
        let b = pb(ctx, &rows, true).into_ntt();
        let mut c = proto::Ciphertext { c: vec![b.to_bytes()], seed: vec![], level: level as u32 };
        if seeded {
            c.seed = sd.to_vec();
        } else {
            c.c.push(pb(ctx, &a, true).into_ntt().to_bytes());
        }
        Ciphertext::from_bytes(&c.encode_to_vec(), &self.par).unwrap()
    }
    /// The ciphertext of m whose second part is the given integer polynomial.
    pub fn enc_with(&self, m: &Msg, level: usize, a: &[BigUint], e: &[i64]) -> Ciphertext {
        let ctx = self.par.context_at_level(level).unwrap();
        let ar = self.to_rows(a, level);
        let sm = self.to_rows(&self.scaled(m, level), level);
        let rows: Vec<Vec<u64>> = self
            .ql(level)
            .iter()
            .enumerate()
            .map(|(i, &q)| {
                let s: Vec<u64> = self.s.iter().map(|x| x.rem_euclid(q as i64) as u64).collect();
                let p = negmul(&s, &ar[i], q);
                (0..self.n).map(|j| ((sm[i][j] as i128 + e[j] as i128 - p[j] as i128).rem_euclid(q as i128)) as u64).collect()
            })
            .collect();
        let c = proto::Ciphertext { c: vec![pb(ctx, &rows, true).into_ntt().to_bytes(), pb(ctx, &ar, true).into_ntt().to_bytes()], seed: vec![], level: level as u32 };
        Ciphertext::from_bytes(&c.encode_to_vec(), &self.par).unwrap()
    }
    pub fn errs(&self, kind: usize) -> Vec<i64> {
        let b = self.b as i64;
        match kind % 4 {
            0 => vec![0; self.n],
            1 => (0..self.n).map(|i| if i % 2 == 0 { b } else { -b }).collect(),
            2 => vec![b; self.n],
            _ => (0..self.n).map(|i| (i as i64 * 7 + 3) % (2 * b + 1) - b).collect(),
        }
    }
    /// A public key with known error, built through its wire format.
    pub fn pk(&self, seed: u64, kind: usize, seeded: bool) -> PublicKey {
        let c = self.enc_seeded(&self.zero_msg(), 0, seed, &self.errs(kind), seeded);
        let b = proto::PublicKey { c: Some(proto::Ciphertext::decode(c.to_bytes().as_slice()).unwrap()) }.encode_to_vec();
        PublicKey::from_bytes(&b, &self.par).unwrap()
    }
    pub fn sk_enc(&self, pt: &Plaintext, seed: u64) -> fhe::Result<Ciphertext> {
        <SecretKey as FheEncrypter<Plaintext, Ciphertext>>::try_encrypt(&self.sk, pt, &mut rng(seed))
    }
    // ---- exact phase
    pub fn phase(&self, ct: &Ciphertext) -> Vec<BigUint> {
        phase_with(self, ct, &self.s)
    }
    /// Largest |t phase - Q m| modulo t Q, centred.
    pub fn noise(&self, ct: &Ciphertext, m: &Msg, level: usize) -> BigUint {
        noise_with(self, ct, m, level, &self.s)
    }
    pub fn decrypt_coeffs(&self, ct: &Ciphertext) -> Result<Msg, String> {
        let pt = self.sk.try_decrypt(ct).map_err(|e| format!("decryption failed: {e}"))?;
        pt_coeffs(self, &pt)
    }
    // ---- noise bounds
    pub fn w_sk(&self) -> BigUint {
        &self.t * self.b + &self.t
    }
    pub fn w_pk(&self, level: usize) -> BigUint {
        let nb = bu(self.n as u64) * self.b * self.b;
        // the key itself is switched down to the level first
        let eb = bu(self.b) + bu(level as u64) * (&self.s1[2] + 1u32);
        let u = bu(self.n as u64) * self.b * eb;
        (u + self.b + nb) * &self.t + &self.t
    }
    pub fn w_down(&self, w: &BigUint, parts: usize, from: usize, to: usize) -> BigUint {
        let mut w = w.clone();
        for l in from..to {
            let q = *self.ql(l).last().unwrap();
            w = &w / q + 1u32 + &self.t * (&self.s1[parts] / 2u32 + 1u32);
        }
        w
    }
    pub fn w_mulpt(&self, w: &BigUint, m: &Msg) -> BigUint {
        let l1: BigUint = m.iter().sum();
        w * l1
    }
    fn mm(&self, w: &BigUint, parts: usize, q: &BigUint) -> BigUint {
        &self.t * &self.s1[parts] / 2u32 + w / q + 2u32
    }
    pub fn w_mul(&self, a: (&BigUint, usize), b: (&BigUint, usize), level: usize) -> BigUint {
        let q = self.qq(level);
        let n = bu(self.n as u64);
        &n * self.mm(a.0, a.1, &q) * b.0 + &n * self.mm(b.0, b.1, &q) * a.0 + &n * a.0 * b.0 / &q + 1u32
            + &self.t * (&self.s1[a.1 + b.1 - 1] + 1u32)
    }
    /// Error added (in t-scaled units) by one key switch of a polynomial at ct level with a key at key level.
    pub fn w_ks(&self, ct_level: usize, key_level: usize) -> BigUint {
        let qk = self.ql(key_level);
        let mut e = BigUint::zero();
        let n = bu(self.n as u64);
        if qk.len() == 1 {
            let lm = qk[0].next_power_of_two().ilog2() as usize;
            let lb = lm / 2;
            e += n * (BigUint::one() << lb) * self.b * lm.div_ceil(lb) as u64;
        } else {
            for q in self.ql(ct_level) {
                e += &n * *q * self.b;
            }
        }
        let mut w = e * &self.t;
        for l in key_level..ct_level {
            let q = *self.ql(l).last().unwrap();
            w = &w / q + 1u32 + &self.t * (&self.s1[2] / 2u32 + 1u32);
        }
        w
    }
    /// Decryption is exact below this bound.
    pub fn budget(&self, level: usize) -> BigUint {
        self.qq(level) / 2u32
    }
    pub fn ok(&self, w: &BigUint, level: usize) -> bool {
        // leave the tie window of the fixed-point rounding out
        w + (&self.t << 1) < self.budget(level) && self.qq(level) > self.t
    }
}
pub fn phase_with(ps: &Ps, ct: &Ciphertext, s: &[i64]) -> Vec<BigUint> {
    let nq = ct[0].ctx().moduli().len();
    let q = &ps.q[..nq];
    let parts: Vec<Vec<Vec<u64>>> = ct.iter().map(|p| coeffs(&p.clone().into_power_basis())).collect();
    let mut rows = vec![];
    for (i, &m) in q.iter().enumerate() {
        let sv: Vec<u64> = s.iter().map(|x| x.rem_euclid(m as i64) as u64).collect();
        // Horner
        let mut acc = parts.last().unwrap()[i].clone();
        for p in parts.iter().rev().skip(1) {
            acc = negmul(&acc, &sv, m);
            for j in 0..acc.len() {
                acc[j] = ((acc[j] as u128 + p[i][j] as u128) % m as u128) as u64;
            }
        }
        rows.push(acc);
    }
    (0..ps.n).map(|j| crt(&rows.iter().map(|r| r[j]).collect::<Vec<_>>(), q)).collect()
}
pub fn noise_of(ps: &Ps, ph: &[BigUint], m: &Msg, level: usize) -> BigUint {
    let q = ps.qq(level);
    let tq = &ps.t * &q;
    let mut w = BigUint::zero();
    for (x, y) in ph.iter().zip(m) {
        let d = modp(&(bi(x) * ps.tb() - bi(y) * bi(&q)), &tq);
        let c = centre(&d, &tq).abs().to_biguint().unwrap();
        if c > w {
            w = c;
        }
    }
    w
}
pub fn noise_with(ps: &Ps, ct: &Ciphertext, m: &Msg, level: usize, s: &[i64]) -> BigUint {
    noise_of(ps, &phase_with(ps, ct, s), m, level)
}
/// What exact decryption of a phase yields: round(t x / Q) mod t.
pub fn exact_decode(ps: &Ps, ph: &[BigUint], level: usize) -> Msg {
    let q = ps.qq(level);
    ph.iter().map(|x| modp(&rdiv(&(bi(x) * ps.tb()), &bi(&q)), &ps.t)).collect()
}
pub fn pt_coeffs(ps: &Ps, pt: &Plaintext) -> Result<Msg, String> {
    let ctx = ps.par.context_at_level(pt.level()).map_err(|e| e.to_string())?;
    let p = Poly::<PowerBasis>::try_convert_from(pt, ctx, false).map_err(|e| e.to_string())?;
    let r = coeffs(&p);
    let q = ps.ql(pt.level());
    Ok((0..ps.n).map(|j| crt(&r.iter().map(|x| x[j]).collect::<Vec<_>>(), q)).collect())
}

/// Ciphertext contents, exactly.
pub fn ct_rows(ct: &Ciphertext) -> Vec<Vec<u64>> {
    ct.iter().map(|p| p.coefficients().iter().copied().collect()).collect()
}
pub fn ct_proto(ct: &Ciphertext) -> proto::Ciphertext {
    proto::Ciphertext::decode(ct.to_bytes().as_slice()).unwrap()
}
pub fn ct_level(ps: &Ps, ct: &Ciphertext) -> usize {
    let _ = ps;
    ct_proto(ct).level as usize
}

/// A ciphertext of the implementation together with what the model says about it.
#[derive(Clone)]
pub struct Cm {
    pub ct: Ciphertext,
    pub m: Msg,
    pub parts: usize,
    pub level: usize,
    pub w: BigUint,
}

/// The invariant of a valid ciphertext: bookkeeping, reduced residues, noise within the worst-case bound, and
/// exact decryption whenever the bound leaves room for it.
pub fn verify(ps: &Ps, c: &Cm) -> Result<u64, String> {
    structure(ps, &c.ct, c.parts, c.level)?;
    if !ps.ok(&c.w, c.level) {
        return Ok(0);
    }
    let w = ps.noise(&c.ct, &c.m, c.level);
    if w > c.w {
        return Err(format!(
            "noise {} bits exceeds the worst-case bound {} bits (Q has {} bits) for message {:?}",
            w.bits(),
            c.w.bits(),
            ps.qq(c.level).bits(),
            c.m
        ));
    }
    let d = ps.decrypt_coeffs(&c.ct)?;
    if d != c.m {
        return Err(format!("decrypts to {d:?}, expected {:?} (noise {} of {} bits)", c.m, w.bits(), ps.qq(c.level).bits()));
    }
    Ok(1)
}
pub fn structure(ps: &Ps, ct: &Ciphertext, parts: usize, level: usize) -> Result<(), String> {
    if ct.len() != parts {
        return Err(format!("{} parts, expected {parts}", ct.len()));
    }
    let l = ct_level(ps, ct);
    if l != level {
        return Err(format!("level {l}, expected {level}"));
    }
    let q = ps.ql(level);
    for (i, p) in ct.iter().enumerate() {
        if p.ctx().moduli() != q || p.coefficients().ncols() != ps.n {
            return Err(format!("part {i} is over moduli {:?}, expected {q:?}", p.ctx().moduli()));
        }
        for (r, m) in p.coefficients().outer_iter().zip(q) {
            if r.iter().any(|x| x >= m) {
                return Err(format!("part {i} is not reduced"));
            }
        }
    }
    Ok(())
}
pub fn fresh(ps: &Ps, m: &Msg, level: usize, seed: u64, kind: usize, seeded: bool) -> Cm {
    Cm { ct: ps.enc_seeded(m, level, seed, &ps.errs(kind), seeded), m: m.clone(), parts: 2, level, w: ps.w_sk() }
}
pub fn fresh_pk(ps: &Ps, pk: &PublicKey, m: &Msg, level: usize, seed: u64) -> Cm {
    let ct: Ciphertext = pk.try_encrypt(&ps.plaintext(m, level), &mut rng(seed)).unwrap();
    Cm { ct, m: m.clone(), parts: 2, level, w: ps.w_pk(level) }
}
pub fn same(a: &Ciphertext, b: &Ciphertext) -> bool {
    a == b && ct_rows(a) == ct_rows(b)
}
/// A spread of messages: zero, unit coefficients, extremes, mixed.
pub fn messages(ps: &Ps, k: usize) -> Vec<Msg> {
    let t1 = &ps.t - 1u32;
    let mut l = Lcg(0xC0FFEE ^ ps.n as u64);
    let mut v = vec![
        ps.zero_msg(),
        vec![t1.clone(); ps.n],
        (0..ps.n).map(|i| if i == 0 { BigUint::one() } else { BigUint::zero() }).collect(),
        (0..ps.n).map(|i| if i + 1 == ps.n { t1.clone() } else { BigUint::zero() }).collect(),
        (0..ps.n).map(|i| (bu(i as u64) * 3u32 + 1u32) % &ps.t).collect(),
        vec![&ps.t / 2u32; ps.n],
        vec![(&ps.t + 1u32) / 2u32 % &ps.t; ps.n],
    ];
    while v.len() < k {
        v.push((0..ps.n).map(|_| ((bu(l.next()) << 64usize) + bu(l.next())) % &ps.t).collect());
    }
    v.truncate(k);
    v
}
pub fn tvt() -> fhe_traits::VariableTime {
    vt()
}
pub fn tup(v: &[u64], n: usize) -> Vec<Vec<u64>> {
    rows_of(v, n)
}

/// Parameter sets used across the scheme-level explorations.
pub fn p0() -> Ps {
    Ps::new("n8-t17-3x62", 8, bu(17), Mods::Sizes(&[62, 62, 62]), 10, Secret::Random(1))
}
pub fn p1() -> Ps {
    Ps::new("n8-t10-40,62,50", 8, bu(10), Mods::Sizes(&[40, 62, 50]), 3, Secret::Random(2))
}
pub fn p2() -> Ps {
    Ps::new("n16-t97-62,61-extreme", 16, bu(97), Mods::Sizes(&[62, 61]), 10, Secret::Extreme)
}
pub fn p3() -> Ps {
    // prime above 2^70
    Ps::new("n8-tbig-4x62", 8, (BigUint::one() << 70usize) + 25u32, Mods::Sizes(&[62, 62, 62, 62]), 10, Secret::Random(3))
}
pub fn p4() -> Ps {
    // plaintext modulus above the first ciphertext modulus
    let q0 = ntt_primes(20, 16, 1);
    let q = ntt_primes(62, 16, 2);
    Ps::new("n8-t>q0", 8, bu((1 << 21) + 9), Mods::List(&[q0[0], q[0], q[1]]), 2, Secret::Random(4))
}
pub fn p5() -> Ps {
    Ps::new("n8-t17-1x62", 8, bu(17), Mods::Sizes(&[62]), 10, Secret::Random(5))
}
pub fn p6() -> Ps {
    Ps::new("n8-t2-3x30-var1", 8, bu(2), Mods::Sizes(&[30, 30, 30]), 1, Secret::Random(6))
}
pub fn p7() -> Ps {
    let t = ntt_primes(40, 16, 1)[0];
    Ps::new("n8-t40bit-simd-4x62", 8, bu(t), Mods::Sizes(&[62, 62, 62, 62]), 10, Secret::Random(7))
}
pub fn p8() -> Ps {
    // plaintext modulus between q0/2 and q0
    let q0 = ntt_primes(30, 16, 1)[0];
    let q = ntt_primes(62, 16, 2);
    Ps::new("n8-q0/2<t<q0", 8, bu(q0 / 10 * 9), Mods::List(&[q0, q[0], q[1]]), 2, Secret::Random(8))
}
pub fn p9() -> Ps {
    Ps::new("n64-t257-3x50", 64, bu(257), Mods::Sizes(&[50, 50, 50]), 10, Secret::Random(9))
}
