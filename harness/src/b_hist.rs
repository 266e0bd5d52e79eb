//! Histories of homomorphic operations: B05 values and bookkeeping, B06 level switching, B07 serialisation at
//! every point, B17 measured noise, and B04 fresh encryptions.
use crate::b_core::*;
use crate::b_ops::{lv, shapes};
use crate::core::*;
use crate::model::*;
use fhe::bfv::{Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, RelinearizationKey};
use fhe_traits::{DeserializeParametrized, FheEncoder, FheEncoderVariableTime, FheEncrypter, Serialize};
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub struct Env {
    pub ps: Ps,
    /// operand ciphertexts at level 0 (two parts)
    pub pool: Vec<Cm>,
    /// pool switched to (level, parts): 3-part versions are products
    pub at: BTreeMap<(usize, usize), Vec<Cm>>,
    pub pts: Vec<Msg>,
    pub pt_at: Vec<Vec<Plaintext>>,
    /// relinearisation keys by (ciphertext level, key level)
    pub rk: BTreeMap<(usize, usize), RelinearizationKey>,
    pub ek: BTreeMap<(usize, usize), EvaluationKey>,
    pub mult: BTreeMap<usize, Multiplicator>,
    pub rots: Vec<usize>,
}

impl Env {
    pub fn new(ps: Ps, keys: bool) -> Env {
        let ms = messages(&ps, 12);
        let mut pool = vec![
            fresh(&ps, &ms[10], 0, 11, 1, true),
            fresh(&ps, &ms[1], 0, 12, 3, true),
        ];
        let pk = ps.pk(99, 1, true);
        pool.push(fresh_pk(&ps, &pk, &ms[5], 0, 7));
        let pts = vec![ms[11].clone(), ms[1].clone(), ms[4].clone()];
        let mut at = BTreeMap::new();
        let mut pt_at = vec![];
        let mut rk = BTreeMap::new();
        let mut ek = BTreeMap::new();
        let mut mult = BTreeMap::new();
        let nl = ps.levels();
        for l in 0..nl {
            pt_at.push(pts.iter().map(|m| ps.plaintext(m, l)).collect());
            let two: Vec<Cm> = pool
                .iter()
                .map(|c| {
                    let mut d = c.clone();
                    d.ct.switch_to_level(l).unwrap();
                    d.w = ps.w_down(&c.w, 2, 0, l);
                    d.level = l;
                    d
                })
                .collect();
            let three: Vec<Cm> = (0..2)
                .map(|i| {
                    let (a, b) = (&two[i], &two[i + 1]);
                    Cm {
                        ct: &a.ct * &b.ct,
                        m: ps.pmul(&a.m, &b.m),
                        parts: 3,
                        level: l,
                        w: ps.w_mul((&a.w, 2), (&b.w, 2), l),
                    }
                })
                .collect();
            at.insert((l, 2), two);
            at.insert((l, 3), three);
            if keys {
                for k in 0..=l {
                    if ps.ql(k).len() > 1 {
                        let r = RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(500 + (l * 10 + k) as u64)).unwrap();
                        if k == 0 {
                            mult.insert(l, Multiplicator::default(&r).unwrap());
                        }
                        rk.insert((l, k), r);
                    }
                    let mut b = EvaluationKeyBuilder::new_leveled(&ps.sk, l, k).unwrap();
                    b.enable_row_rotation().unwrap().enable_column_rotation(1).unwrap().enable_column_rotation(ps.n / 2 - 1).unwrap();
                    ek.insert((l, k), b.build(&mut rng(700 + (l * 10 + k) as u64)).unwrap());
                }
            }
        }
        let rots = vec![1, ps.n / 2 - 1];
        Env { ps, pool, at, pts, pt_at, rk, ek, mult, rots }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add(usize),
    Sub(usize),
    RSub(usize),
    AddSelf,
    SubSelf,
    Neg,
    AddPt(usize),
    SubPt(usize),
    RSubPt(usize),
    MulPt(usize),
    AddEmpty,
    Mul(usize),
    RMul(usize),
    MulEmpty,
    Square,
    Relin(usize),
    MulDefault(usize),
    RotRow(usize),
    RotCol(usize, usize),
    Down,
    To(usize),
    Ser,
    BadUp,
    BadBeyond,
    BadRelin,
    BadRot,
    /// the same additions and negations through the mutable slice view of the parts
    SliceAdd,
    SliceNeg,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Watch {
    Values,
    Levels,
    Wire,
    Noise,
}

pub struct Hist<'a> {
    pub env: &'a Env,
    pub watch: Watch,
    pub max_parts: usize,
}

fn keep(ps: &Ps, before: &Ciphertext, now: &Ciphertext, what: &str) -> Result<(), String> {
    let _ = ps;
    if !same(before, now) {
        return Err(format!("{what}: an operand was changed"));
    }
    Ok(())
}
fn agree(a: &Ciphertext, b: &Ciphertext, what: &str) -> Result<(), String> {
    if !same(a, b) {
        return Err(format!("{what}: the forms disagree"));
    }
    Ok(())
}

impl Hist<'_> {
    fn out(&self, ct: Ciphertext, m: Msg, parts: usize, level: usize, w: BigUint) -> Cm {
        Cm { ct, m, parts, level, w }
    }
    /// Apply an operation in every form the API offers.
    pub fn apply(&self, s: &Cm, op: &Op) -> Result<Cm, String> {
        let e = self.env;
        let ps = &e.ps;
        let c = &s.ct;
        let (p, l) = (s.parts, s.level);
        let pool = |k: usize| &e.at[&(l, p)][k];
        let empty = Ciphertext::zero(&ps.par);
        let r = match *op {
            Op::Add(k) => {
                let o = pool(k);
                let r = c + &o.ct;
                let mut a = c.clone();
                a += &o.ct;
                agree(&r, &a, "+=")?;
                agree(&r, &(c.clone() + &o.ct), "owned +")?;
                agree(&r, &(&o.ct + c), "commuted +")?;
                self.out(r, ps.padd(&s.m, &o.m), p, l, &s.w + &o.w)
            }
            Op::Sub(k) => {
                let o = pool(k);
                let r = c - &o.ct;
                let mut a = c.clone();
                a -= &o.ct;
                agree(&r, &a, "-=")?;
                agree(&r, &(c.clone() - &o.ct), "owned -")?;
                self.out(r, ps.psub(&s.m, &o.m), p, l, &s.w + &o.w)
            }
            Op::RSub(k) => {
                let o = pool(k);
                let r = &o.ct - c;
                let mut a = o.ct.clone();
                a -= c;
                agree(&r, &a, "reverse -=")?;
                agree(&r, &(o.ct.clone() - c), "owned reverse -")?;
                self.out(r, ps.psub(&o.m, &s.m), p, l, &s.w + &o.w)
            }
            Op::AddSelf => {
                let r = c + c;
                let mut a = c.clone();
                a += c;
                agree(&r, &a, "+= self")?;
                self.out(r, ps.padd(&s.m, &s.m), p, l, &s.w * 2u32)
            }
            Op::SubSelf => {
                let r = c - c;
                let mut a = c.clone();
                a -= c;
                agree(&r, &a, "-= self")?;
                self.out(r, ps.zero_msg(), p, l, BigUint::from(0u32))
            }
            Op::Neg => {
                let r = -c;
                agree(&r, &-c.clone(), "owned neg")?;
                self.out(r, ps.pneg(&s.m), p, l, s.w.clone())
            }
            Op::AddPt(k) => {
                let pt = &e.pt_at[l][k];
                let r = c + pt;
                let mut a = c.clone();
                a += pt;
                agree(&r, &a, "+= plaintext")?;
                agree(&r, &(c.clone() + pt), "owned + plaintext")?;
                agree(&r, &(pt + c), "plaintext +")?;
                self.out(r, ps.padd(&s.m, &e.pts[k]), p, l, &s.w + &ps.t)
            }
            Op::SubPt(k) => {
                let pt = &e.pt_at[l][k];
                let r = c - pt;
                let mut a = c.clone();
                a -= pt;
                agree(&r, &a, "-= plaintext")?;
                agree(&r, &(c.clone() - pt), "owned - plaintext")?;
                self.out(r, ps.psub(&s.m, &e.pts[k]), p, l, &s.w + &ps.t)
            }
            Op::RSubPt(k) => {
                let pt = &e.pt_at[l][k];
                let r = pt - c;
                self.out(r, ps.psub(&e.pts[k], &s.m), p, l, &s.w + &ps.t)
            }
            Op::MulPt(k) => {
                let pt = &e.pt_at[l][k];
                let r = c * pt;
                let mut a = c.clone();
                a *= pt;
                agree(&r, &a, "*= plaintext")?;
                agree(&r, &(c.clone() * pt), "owned * plaintext")?;
                self.out(r, ps.pmul(&s.m, &e.pts[k]), p, l, ps.w_mulpt(&s.w, &e.pts[k]))
            }
            Op::AddEmpty => {
                agree(c, &(c + &empty), "+ empty")?;
                agree(c, &(&empty + c), "empty +")?;
                agree(c, &(c - &empty), "- empty")?;
                agree(c, &(c.clone() + &empty), "owned + empty")?;
                let mut a = empty.clone();
                a += c;
                agree(c, &a, "empty +=")?;
                let mut a = c.clone();
                a += &empty;
                agree(c, &a, "+= empty")?;
                let mut a = c.clone();
                a -= &empty;
                agree(c, &a, "-= empty")?;
                let n = -c;
                agree(&n, &(&empty - c), "empty -")?;
                let mut a = empty.clone();
                a -= c;
                agree(&n, &a, "empty -=")?;
                if !(-&empty).is_empty() || !(&empty + &empty).is_empty() || !(&empty - &empty).is_empty() {
                    return Err("empty with empty is not empty".into());
                }
                s.clone()
            }
            Op::MulEmpty => {
                // the empty ciphertext is zero: so are its products
                let a = &empty * c;
                let b = c * &empty;
                if !a.is_empty() || !b.is_empty() || !(&empty * &empty).is_empty() {
                    return Err(format!("a product with the empty ciphertext has {} / {} parts", a.len(), b.len()));
                }
                let mut a = empty.clone();
                a *= &e.pt_at[l][0];
                if !a.is_empty() {
                    return Err("empty times plaintext is not empty".into());
                }
                s.clone()
            }
            Op::Mul(k) => {
                let o = &e.at[&(l, 2)][k];
                let r = c * &o.ct;
                self.out(r, ps.pmul(&s.m, &o.m), p + 1, l, ps.w_mul((&s.w, p), (&o.w, 2), l))
            }
            Op::RMul(k) => {
                let o = &e.at[&(l, 3)][k];
                let r = &o.ct * c;
                self.out(r, ps.pmul(&s.m, &o.m), p + 2, l, ps.w_mul((&s.w, p), (&o.w, 3), l))
            }
            Op::Square => {
                let r = c * c;
                agree(&r, &(c * &c.clone()), "square of a clone")?;
                self.out(r, ps.pmul(&s.m, &s.m), 2 * p - 1, l, ps.w_mul((&s.w, p), (&s.w, p), l))
            }
            Op::Relin(k) => {
                let mut r = c.clone();
                e.rk[&(l, k)].relinearizes(&mut r).map_err(|x| format!("relinearisation with key level {k} failed: {x}"))?;
                self.out(r, s.m.clone(), 2, l, &s.w + ps.w_ks(l, k))
            }
            Op::MulDefault(k) => {
                let o = pool(k);
                let r = e.mult[&l].multiply(c, &o.ct).map_err(|x| format!("default multiplicator failed: {x}"))?;
                self.out(r, ps.pmul(&s.m, &o.m), 2, l, ps.w_mul((&s.w, p), (&o.w, 2), l) + ps.w_ks(l, 0))
            }
            Op::RotRow(k) => {
                let r = e.ek[&(l, k)].rotates_rows(c).map_err(|x| format!("row rotation failed: {x}"))?;
                self.out(r, ps.psub_exp(&s.m, 2 * ps.n - 1), 2, l, &s.w + ps.w_ks(l, k) + &ps.t)
            }
            Op::RotCol(k, i) => {
                let r = e.ek[&(l, k)].rotates_columns_by(c, i).map_err(|x| format!("column rotation failed: {x}"))?;
                let ex = (0..i).fold(1usize, |a, _| a * 3 % (2 * ps.n));
                self.out(r, ps.psub_exp(&s.m, ex), 2, l, &s.w + ps.w_ks(l, k) + &ps.t)
            }
            Op::Down => {
                let mut r = c.clone();
                r.switch_down().map_err(|x| format!("switch_down failed: {x}"))?;
                let mut r2 = c.clone();
                r2.switch_to_level(l + 1).map_err(|x| format!("switch_to_level failed: {x}"))?;
                agree(&r, &r2, "switch_down / switch_to_level")?;
                self.out(r, s.m.clone(), p, l + 1, ps.w_down(&s.w, p, l, l + 1))
            }
            Op::To(to) => {
                let mut r = c.clone();
                r.switch_to_level(to).map_err(|x| format!("switch_to_level({to}) failed: {x}"))?;
                let mut r2 = c.clone();
                for _ in l..to {
                    r2.switch_down().map_err(|x| format!("switch_down failed: {x}"))?;
                }
                agree(&r, &r2, "one step / several steps")?;
                self.out(r, s.m.clone(), p, to, ps.w_down(&s.w, p, l, to))
            }
            Op::Ser => {
                let r = Ciphertext::from_bytes(&c.to_bytes(), &ps.par).map_err(|x| format!("own encoding rejected: {x}"))?;
                agree(&r, c, "round trip")?;
                self.out(r, s.m.clone(), p, l, s.w.clone())
            }
            Op::BadUp => {
                if l > 0 {
                    let mut r = c.clone();
                    for to in 0..l {
                        if r.switch_to_level(to).is_ok() {
                            return Err(format!("switching up from {l} to {to} was accepted"));
                        }
                        keep(ps, c, &r, "refused switch up")?;
                    }
                }
                s.clone()
            }
            Op::BadBeyond => {
                let mut r = c.clone();
                for to in [ps.levels(), ps.levels() + 1, usize::MAX] {
                    if r.switch_to_level(to).is_ok() {
                        return Err(format!("switching to level {to} was accepted"));
                    }
                    keep(ps, c, &r, "refused switch beyond the last level")?;
                }
                if l + 1 == ps.levels() {
                    if r.switch_down().is_ok() {
                        return Err("switch_down at the last level was accepted".into());
                    }
                    keep(ps, c, &r, "refused switch_down")?;
                }
                r.switch_to_level(l).map_err(|x| format!("switching to the current level failed: {x}"))?;
                keep(ps, c, &r, "switch to the current level")?;
                if r.max_switchable_level() != ps.levels() - 1 {
                    return Err("max_switchable_level".into());
                }
                s.clone()
            }
            Op::BadRelin => {
                for ((cl, kl), k) in &e.rk {
                    let mut r = c.clone();
                    if *cl != l || p != 3 {
                        if k.relinearizes(&mut r).is_ok() {
                            return Err(format!("relinearisation key ({cl},{kl}) accepted {p} parts at level {l}"));
                        }
                        keep(ps, c, &r, "refused relinearisation")?;
                    }
                }
                s.clone()
            }
            Op::BadRot => {
                for ((cl, kl), k) in &e.ek {
                    if (*cl != l || p != 2) && (k.rotates_rows(c).is_ok() || k.rotates_columns_by(c, 1).is_ok()) {
                        return Err(format!("evaluation key ({cl},{kl}) accepted {p} parts at level {l}"));
                    }
                }
                s.clone()
            }
            Op::SliceAdd => {
                let o = pool(0);
                let mut a = c.clone();
                for (x, y) in a.iter_mut().zip(o.ct.iter()) {
                    *x += y;
                }
                agree(&a, &(c + &o.ct), "addition through the slice view")?;
                self.out(a, ps.padd(&s.m, &o.m), p, l, &s.w + &o.w)
            }
            Op::SliceNeg => {
                let mut a = c.clone();
                for x in a.iter_mut() {
                    *x = -&*x;
                }
                agree(&a, &-c, "negation through the slice view")?;
                self.out(a, ps.pneg(&s.m), p, l, s.w.clone())
            }
        };
        Ok(r)
    }
    pub fn alphabet(&self, s: &Cm) -> Vec<Op> {
        let e = self.env;
        let ps = &e.ps;
        let (p, l) = (s.parts, s.level);
        if !ps.ok(&s.w, l) {
            return vec![];
        }
        let mut v = vec![];
        let full = self.watch == Watch::Values;
        if let Some(pl) = e.at.get(&(l, p)) {
            for k in 0..pl.len() {
                v.push(Op::Add(k));
                if full || k == 0 {
                    v.push(Op::Sub(k));
                    v.push(Op::RSub(k));
                }
            }
        }
        v.push(Op::Neg);
        for k in 0..e.pts.len() {
            v.push(Op::AddPt(k));
            v.push(Op::MulPt(k));
            if full {
                v.push(Op::SubPt(k));
                v.push(Op::RSubPt(k));
            }
        }
        v.push(Op::AddSelf);
        v.push(Op::SubSelf);
        if full {
            v.push(Op::AddEmpty);
            v.push(Op::MulEmpty);
            v.push(Op::BadRelin);
            v.push(Op::BadRot);
        }
        if p + 1 <= self.max_parts {
            for k in 0..2 {
                v.push(Op::Mul(k));
            }
        }
        if p + 2 <= self.max_parts {
            v.push(Op::RMul(0));
        }
        if 2 * p - 1 <= self.max_parts {
            v.push(Op::Square);
        }
        if p == 3 {
            for (cl, k) in e.rk.keys() {
                if *cl == l {
                    v.push(Op::Relin(*k));
                }
            }
        }
        if p == 2 {
            if e.mult.contains_key(&l) {
                v.push(Op::MulDefault(0));
            }
            for (cl, k) in e.ek.keys() {
                if *cl == l {
                    v.push(Op::RotRow(*k));
                    for i in &e.rots {
                        v.push(Op::RotCol(*k, *i));
                    }
                }
            }
        }
        if l + 1 < ps.levels() && ps.qq(l + 1) > ps.t {
            v.push(Op::Down);
            for to in l + 2..ps.levels() {
                if ps.qq(to) > ps.t {
                    v.push(Op::To(to));
                }
            }
        }
        if self.watch == Watch::Levels {
            v.push(Op::BadUp);
            v.push(Op::BadBeyond);
        }
        v.push(Op::Ser);
        if self.watch == Watch::Wire || full {
            v.push(Op::SliceNeg);
            if e.at.contains_key(&(l, p)) {
                v.push(Op::SliceAdd);
            }
        }
        v
    }
}

impl Machine for Hist<'_> {
    type State = Cm;
    type Op = Op;
    fn ops(&self, s: &Cm) -> Vec<Op> {
        self.alphabet(s)
    }
    fn step(&self, s: &Cm, op: &Op) -> Result<Cm, String> {
        let before = s.ct.clone();
        let r = self.apply(s, op)?;
        keep(&self.env.ps, &before, &s.ct, "operand")?;
        Ok(r)
    }
    fn canon(&self, s: &Cm) -> u128 {
        let b = s.ct.to_bytes();
        h128(&(b, &s.m, s.parts, s.level))
    }
    fn check(&self, s: &Cm) -> Result<u64, String> {
        let ps = &self.env.ps;
        match self.watch {
            Watch::Values | Watch::Levels => verify(ps, s),
            Watch::Wire => {
                structure(ps, &s.ct, s.parts, s.level)?;
                let b = s.ct.to_bytes();
                let c2 = Ciphertext::from_bytes(&b, &ps.par).map_err(|x| format!("own encoding rejected: {x}"))?;
                if ct_rows(&c2) != ct_rows(&s.ct) {
                    return Err("the deserialised ciphertext has other contents".into());
                }
                if c2 != s.ct {
                    return Err("the deserialised ciphertext is not equal to the original".into());
                }
                if c2.to_bytes() != b {
                    return Err("serialising again gives other bytes".into());
                }
                if ps.sk_dec(&c2)? != ps.sk_dec(&s.ct)? {
                    return Err("the deserialised ciphertext decrypts differently".into());
                }
                // identical continuation
                let t = Cm { ct: c2, ..s.clone() };
                let mut n = 1;
                for op in self.alphabet(s) {
                    let a = self.apply(s, &op)?;
                    let b = self.apply(&t, &op)?;
                    if !same(&a.ct, &b.ct) {
                        return Err(format!("{op:?} differs after a round trip"));
                    }
                    n += 1;
                }
                Ok(n)
            }
            Watch::Noise => {
                if ps.qq(s.level) <= ps.t {
                    return Ok(0);
                }
                let ph = ps.phase(&s.ct);
                measured(ps, &s.ct, &ph, s.level).map(|_| 1)
            }
        }
    }
}

impl Ps {
    pub fn sk_dec(&self, ct: &Ciphertext) -> Result<Msg, String> {
        self.decrypt_coeffs(ct)
    }
}

/// measure_noise must be the bit length of the largest centred coefficient of phase - scaled(decryption).
pub fn measured(ps: &Ps, ct: &Ciphertext, ph: &[BigUint], level: usize) -> Result<usize, String> {
    let q = ps.qq(level);
    let m = ps.decrypt_coeffs(ct)?;
    let sm = ps.scaled(&m, level);
    let mut bits = 0;
    for (x, y) in ph.iter().zip(&sm) {
        let d = centre(&((x + &q - y) % &q), &q);
        bits = bits.max(d.bits() as usize);
    }
    let got = unsafe { ps.sk.measure_noise(ct) }.map_err(|e| format!("measure_noise failed: {e}"))?;
    if got != bits {
        return Err(format!("measure_noise reports {got} bits, the phase deviates by {bits} bits"));
    }
    Ok(bits)
}

fn inits(e: &Env, three: bool) -> Vec<(String, Cm)> {
    let mut v = vec![];
    for (i, c) in e.pool.iter().enumerate() {
        v.push((format!("fresh{i}"), c.clone()));
    }
    let ps = &e.ps;
    let ms = messages(ps, 12);
    for l in 1..ps.levels() {
        if ps.qq(l) > ps.t {
            v.push((format!("fresh@{l}"), fresh(ps, &ms[10], l, 40 + l as u64, 2, l % 2 == 1)));
        }
    }
    if three {
        v.push(("product".into(), e.at[&(0, 3)][0].clone()));
        // a three-part encryption whose last part travels as a seed: the s-multiple of a seeded zero encryption,
        // that is (0, b, a) with b + a s = e, plus an encryption of a message
        for l in 0..ps.levels() {
            if ps.qq(l) > ps.t {
                v.push((format!("seeded3@{l}"), seeded3(ps, &ms[11], l)));
            }
        }
    }
    v
}

/// Parts (c0, b + c1, a) where a comes from a seed and b = e - a s: the phase is c0 + c1 s + e s.
pub fn seeded3(ps: &Ps, m: &Msg, level: usize) -> Cm {
    use fhe::proto::bfv as proto;
    use prost::Message;
    let z = ps.enc_seeded(&ps.zero_msg(), level, 81, &ps.errs(1), true);
    let f = ps.enc_seeded(m, level, 82, &ps.errs(3), false);
    let mid = &z[0] + &f[1];
    let pz = ct_proto(&z);
    let p = proto::Ciphertext { c: vec![f[0].to_bytes(), mid.to_bytes()], seed: pz.seed, level: level as u32 };
    let ct = Ciphertext::from_bytes(&p.encode_to_vec(), &ps.par).unwrap();
    let w = ps.w_sk() + &ps.t * ps.b * &ps.s1[2];
    Cm { ct, m: m.clone(), parts: 3, level, w }
}

fn sets() -> Vec<fn() -> Ps> {
    vec![p0, p1, p2, p3, p4, p5, p6, p7, p8]
}

pub fn run(r: &Rep, watch: Watch, depth_of: impl Fn(usize) -> usize, keys: bool) {
    for (i, f) in sets().into_iter().enumerate() {
        let ps = f();
        let depth = depth_of(i);
        if depth == 0 {
            continue;
        }
        let name = ps.name.clone();
        r.suite(
            &format!("history-{name}"),
            &format!("all operation histories up to depth {depth} (alphabet: +,-,neg in all forms with pool ciphertexts, plaintext ops, products, squares, relinearisation and rotations at every key level, level switches, serialisation), N={} t={} moduli {:?}", ps.n, ps.t, ps.q),
            |su| {
                let e = Env::new(ps, keys);
                let h = Hist { env: &e, watch, max_parts: if i == 0 { 5 } else { 4 } };
                bfs(su, &h, inits(&e, true), depth, 3_000_000);
            },
        );
    }
}

pub fn b05(r: &Rep) {
    // every shape and degree: sums, differences, products with plaintexts, three-part operands
    shapes(r, "arithmetic", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let ms = messages(ps, 12);
        let d = fresh(ps, &ms[9], l, 5, 2, false);
        let p = &ms[11];
        let pt = ps.plaintext(p, l);
        let mut z = 0;
        let mut go = |what: &str, ct: Ciphertext, m: Msg, parts: usize, w: BigUint| -> Result<(), String> {
            z += verify(ps, &Cm { ct, m, parts, level: l, w }).map_err(|e| format!("{what}: {e}"))?;
            Ok(())
        };
        let w = &c.w + &d.w;
        go("sum", &c.ct + &d.ct, ps.padd(&c.m, &d.m), 2, w.clone())?;
        go("difference", &c.ct - &d.ct, ps.psub(&c.m, &d.m), 2, w.clone())?;
        go("negation", -&c.ct, ps.pneg(&c.m), 2, c.w.clone())?;
        let wt = &c.w + &ps.t;
        go("plaintext sum", &c.ct + &pt, ps.padd(&c.m, p), 2, wt.clone())?;
        go("plaintext difference", &c.ct - &pt, ps.psub(&c.m, p), 2, wt)?;
        go("plaintext product", &c.ct * &pt, ps.pmul(&c.m, p), 2, ps.w_mulpt(&c.w, p))?;
        let (m3, w3) = (ps.pmul(&c.m, &d.m), ps.w_mul((&c.w, 2), (&d.w, 2), l));
        let t3 = &c.ct * &d.ct;
        go("product", t3.clone(), m3.clone(), 3, w3.clone())?;
        let (n3, v3) = (ps.pmul(&c.m, &c.m), ps.w_mul((&c.w, 2), (&c.w, 2), l));
        let sq = &c.ct * &c.ct;
        go("square", sq.clone(), n3.clone(), 3, v3.clone())?;
        go("difference of products", &t3 - &sq, ps.psub(&m3, &n3), 3, &w3 + &v3)?;
        go("product minus plaintext", &t3 - &pt, ps.psub(&m3, p), 3, &w3 + &ps.t)?;
        go("plaintext minus product", &pt - &t3, ps.psub(p, &m3), 3, &w3 + &ps.t)?;
        go("product times plaintext", &t3 * &pt, ps.pmul(&m3, p), 3, ps.w_mulpt(&w3, p))?;
        let t4 = &t3 * &c.ct;
        let w4 = ps.w_mul((&w3, 3), (&c.w, 2), l);
        go("three by two parts", t4, ps.pmul(&m3, &c.m), 4, w4)?;
        let w5 = ps.w_mul((&w3, 3), (&w3, 3), l);
        go("square of three parts", &t3 * &t3, ps.pmul(&m3, &m3), 5, w5.clone())?;
        let u3 = t3.clone();
        go("product of equal three parts", &t3 * &u3, ps.pmul(&m3, &m3), 5, w5)?;
        Ok(z)
    });
    let t = r.thorough;
    run(r, Watch::Values, |i| if t { if i == 0 { 4 } else { 3 } } else if i == 0 { 3 } else { 2 }, true);
}
pub fn b06(r: &Rep) {
    // every shape and degree: every chain of switches from one level to a deeper one
    shapes(r, "switching", &|ps, l, k, c| {
        // (l, k) stands for starting at k and ending at l
        let mut z = 0;
        let ms = messages(ps, 12);
        for three in [false, true] {
            let a = fresh(ps, &c.m, k, 8, 3, three);
            let a = if three {
                let b = fresh(ps, &ms[9], k, 9, 1, false);
                Cm { ct: &a.ct * &b.ct, m: ps.pmul(&a.m, &b.m), parts: 3, level: k, w: ps.w_mul((&a.w, 2), (&b.w, 2), k) }
            } else {
                a
            };
            let mut direct = a.ct.clone();
            direct.switch_to_level(l).map_err(|e| format!("switching from {k} to {l}: {e}"))?;
            let mut step = a.ct.clone();
            for at in k..l {
                step.switch_down().map_err(|e| format!("switching down from {at}: {e}"))?;
            }
            if !same(&direct, &step) {
                return Err(format!("switching from {k} to {l} at once and in steps differ"));
            }
            let w = ps.w_down(&a.w, a.parts, k, l);
            z += verify(ps, &Cm { ct: direct, w, level: l, ..a.clone() })?;
            for bad in (0..ps.levels() + 3).filter(|b| *b < l || *b >= ps.levels()) {
                let before = step.clone();
                if step.switch_to_level(bad).is_ok() {
                    return Err(format!("switching from {l} to {bad} succeeded"));
                }
                if !same(&before, &step) {
                    return Err(format!("the refused switch from {l} to {bad} changed the ciphertext"));
                }
                z += 1;
            }
        }
        Ok(z)
    });
    let t = r.thorough;
    run(r, Watch::Levels, |i| if t { 3 } else if i == 0 { 3 } else { 2 }, true);
}
pub fn b07(r: &Rep) {
    // every shape and degree: seeded and full encodings of two and three parts
    shapes(r, "encodings", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let mut z = 0;
        let own = Cm { ct: ps.sk_enc(&ps.plaintext(&c.m, l), 3).map_err(|e| format!("encryption: {e}"))?, w: ps.w_sk(), ..c.clone() };
        let d = fresh(ps, &c.m, l, 4, 2, true);
        let prod = Cm { ct: &c.ct * &d.ct, m: ps.pmul(&c.m, &d.m), parts: 3, level: l, w: ps.w_mul((&c.w, 2), (&d.w, 2), l) };
        for (i, x) in [c.clone(), own, d, seeded3(ps, &c.m, l), prod].into_iter().enumerate() {
            let b = x.ct.to_bytes();
            let y = Ciphertext::from_bytes(&b, &ps.par).map_err(|e| format!("ciphertext {i}: reading back: {e}"))?;
            if !same(&x.ct, &y) || y.to_bytes() != b {
                return Err(format!("ciphertext {i} read back differs"));
            }
            z += verify(ps, &Cm { ct: y, ..x })?;
        }
        Ok(z)
    });
    let t = r.thorough;
    run(r, Watch::Wire, |i| if t { if i < 2 { 3 } else { 2 } } else { if i == 0 { 2 } else { 1 } }, true);
}
pub fn b17(r: &Rep) {
    // every shape and degree
    shapes(r, "noise", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let mut z = 0;
        let d = fresh(ps, &messages(ps, 12)[9], l, 4, 2, true);
        let t3 = &c.ct * &d.ct;
        let zero = ps.enc_seeded(&ps.zero_msg(), l, 5, &ps.errs(0), true);
        for ct in [c.ct.clone(), &c.ct + &d.ct, t3, zero] {
            measured(ps, &ct, &ps.phase(&ct), l)?;
            z += 1;
        }
        Ok(z)
    });
    let t = r.thorough;
    run(r, Watch::Noise, |i| if t { 3 } else if i == 0 { 3 } else { 2 }, true);
    // every phase of a tiny modulus: the boundary of decryption
    noise_exhaustive(r);
    noise_spikes(r);
}

/// A ciphertext with a chosen phase (c1 = 0, c0 = phase), so decryption and noise are functions of the phase.
pub fn with_phase(ps: &Ps, ph: &[BigUint], level: usize, parts: usize) -> Ciphertext {
    use crate::a_poly::pb;
    let ctx = ps.par.context_at_level(level).unwrap();
    let c0 = pb(ctx, &ps.to_rows(ph, level), true).into_ntt();
    let z = fhe_math::rq::Poly::<fhe_math::rq::Ntt>::zero(ctx);
    let mut v = vec![c0];
    for _ in 1..parts {
        v.push(z.clone());
    }
    Ciphertext::new(v, &ps.par).unwrap()
}

/// One coefficient deviates by a value around a power of two, every other one by less: the reported bit length
/// is decided by that coefficient alone, wherever it is and whatever its sign.
fn noise_spikes(r: &Rep) {
    let t = r.thorough;
    r.suite("spikes", "shapes x levels x parts 1+{1,2} x deviations {0, +-1, +-(2^k-1), +-2^k for every k below the decryption bound} x position of the deviation x {zero, full} message; all other coefficients deviate by 0 or by less", |su| {
        for (name, tt, sizes) in [("62", 17u64, vec![62usize]), ("62,62", 17, vec![62, 62]), ("20,62,41", 2, vec![20, 62, 41]), ("4x62", 1 << 40, vec![62, 62, 62, 62])] {
            let ps = Ps::new(&format!("{name}-t{tt}"), 8, bu(tt), Mods::Sizes(&sizes), 3, Secret::Random(91));
            let ms = messages(&ps, 12);
            for l in lv(&ps) {
                let q = ps.qq(l);
                // deviations strictly below Q/2t never change the decryption
                let max = (&q / (&ps.t * 2u32)).bits() as usize - 1;
                let mut devs: Vec<BigUint> = vec![bu(0)];
                for k in 0..max {
                    let p = BigUint::from(1u32) << k;
                    devs.push(p.clone() - 1u32);
                    devs.push(p);
                }
                let items: Vec<(usize, usize)> = (0..devs.len()).flat_map(|i| (0..ps.n).map(move |p| (i, p))).collect();
                su.par(&items, |&(i, pos)| {
                    let d = &devs[i];
                    for (mi, m) in [ps.zero_msg(), ms[9].clone()].iter().enumerate() {
                        for sign in [false, true] {
                            for small in [0usize, 1] {
                                if !t && (pos + i + mi + small) % 2 == 1 && pos != 0 {
                                    continue;
                                }
                                su.case(&format!("{name} l{l} deviation {}{d} at {pos} others {small} message {mi}", if sign { "-" } else { "" }), || {
                                    let sm = ps.scaled(m, l);
                                    let ph: Vec<BigUint> = sm.iter().enumerate().map(|(j, x)| {
                                        let e = if j == pos { d.clone() } else if small == 1 { d >> (j + 1) } else { bu(0) };
                                        if sign != (j % 3 == 1) { (x + &q - e) % &q } else { (x + e) % &q }
                                    }).collect();
                                    let mut z = 0;
                                    for parts in [2, 3] {
                                        let ct = with_phase(&ps, &ph, l, parts);
                                        if ps.decrypt_coeffs(&ct)? != *m {
                                            return Err("a deviation within the bound changes the decryption".into());
                                        }
                                        let n = measured(&ps, &ct, &ph, l)?;
                                        if n != d.bits() as usize {
                                            return Err(format!("the noise is {} bits but measured as {n}", d.bits()));
                                        }
                                        z += 1;
                                    }
                                    su.outcome(h64(&(l, d.bits())));
                                    Ok(z)
                                });
                            }
                        }
                    }
                });
            }
        }
    });
}
fn noise_exhaustive(r: &Rep) {
    let q = ntt_primes(10, 16, 2);
    for (t, qs) in [(5u64, vec![q[0]]), (2, vec![q[0]]), (300, vec![q[0]]), (7, vec![q[0], q[1]])] {
        let ps = Ps::new(&format!("t{t}"), 8, bu(t), Mods::List(&qs), 1, Secret::Random(31));
        r.suite(&format!("all-phases-t{t}-{}moduli", qs.len()), &format!("every phase value modulo each level of {qs:?}, t={t}"), |su| {
            for l in 0..qs.len() {
                if ps.qq(l) <= ps.t {
                    continue;
                }
                let qq: u64 = ps.ql(l).iter().product();
                let step = if qq > 1 << 16 && !r.thorough { 37 } else { 1 };
                let starts: Vec<u64> = (0..qq.div_ceil(8 * step)).collect();
                su.par(&starts, |&b| {
                    let ph: Vec<BigUint> = (0..8).map(|j| bu((b * 8 + j) * step % qq)).collect();
                    su.case(&format!("l{l} from {}", b * 8 * step), || {
                        let ct = with_phase(&ps, &ph, l, 2);
                        let n = measured(&ps, &ct, &ph, l)?;
                        su.outcome(h64(&(n, l)));
                        Ok(8)
                    });
                });
            }
        });
    }
}

pub fn b04(r: &Rep) {
    // every shape and degree: both kinds of encryption, exact rounding
    shapes(r, "encryption", &|ps, l, k, c| {
        if k != l {
            return Ok(0);
        }
        let mut z = verify(ps, c)?;
        let ct = ps.sk_enc(&ps.plaintext(&c.m, l), 3).map_err(|e| format!("encryption: {e}"))?;
        z += verify(ps, &Cm { ct, w: ps.w_sk(), ..c.clone() }).map_err(|e| format!("secret key: {e}"))?;
        for (kind, seeded) in [(1, true), (3, false)] {
            z += verify(ps, &fresh_pk(ps, &ps.pk(4, kind, seeded), &c.m, l, 5)).map_err(|e| format!("public key: {e}"))?;
        }
        z += verify(ps, &fresh_pk(ps, &fhe::bfv::PublicKey::new(&ps.sk, &mut rng(6)), &c.m, l, 5)).map_err(|e| format!("public key of the secret key: {e}"))?;
        Ok(z)
    });
    let t = r.thorough;
    // every fresh encryption of many messages
    for f in sets() {
        let ps = f();
        let name = ps.name.clone();
        r.suite(&format!("fresh-{name}"), "messages x levels x {secret key, known-error seeded, public key (three known errors), public key of the secret key} x encodings", |su| {
            let ms = messages(&ps, if t { 64 } else { 24 });
            let pks: Vec<_> = (0..3).map(|k| ps.pk(60 + k as u64, k, k != 1)).collect();
            let rpk = fhe::bfv::PublicKey::new(&ps.sk, &mut rng(77));
            let mut items = vec![];
            for l in 0..ps.levels() {
                if ps.qq(l) <= ps.t {
                    continue;
                }
                for i in 0..ms.len() {
                    items.push((l, i));
                }
            }
            su.par(&items, |&(l, i)| {
                let m = &ms[i];
                let pt = ps.plaintext(m, l);
                let go = |what: String, ct: fhe::Result<Ciphertext>, w: BigUint| {
                    su.case(&format!("{what} level {l} message {i}"), || {
                        let ct = ct.map_err(|e| format!("encryption failed: {e}"))?;
                        let c = Cm { ct, m: m.clone(), parts: 2, level: l, w };
                        su.outcome(h64(&(l, i, &what)));
                        if ps.ok(&c.w, l) {
                            verify(&ps, &c)
                        } else {
                            structure(&ps, &c.ct, 2, l)?;
                            // outside the guaranteed range decryption still succeeds and rounds the phase
                            let d = ps.decrypt_coeffs(&c.ct)?;
                            if d != exact_decode(&ps, &ps.phase(&c.ct), l) {
                                return Err("decryption is not the rounded phase".into());
                            }
                            Ok(1)
                        }
                    });
                };
                go("sk".into(), ps.sk_enc(&pt, 1000 + i as u64), ps.w_sk());
                for k in 0..4 {
                    go(format!("known error {k}"), Ok(ps.enc_seeded(m, l, i as u64, &ps.errs(k), k % 2 == 0)), ps.w_sk());
                }
                for (k, pk) in pks.iter().enumerate() {
                    go(format!("pk error {k}"), pk.try_encrypt(&pt, &mut rng(2000 + i as u64)), ps.w_pk(l));
                }
                go("pk".into(), rpk.try_encrypt(&pt, &mut rng(3000 + i as u64)), ps.w_pk(l));
                // encodings: values in, values out
                let v: Vec<u64> = m.iter().map(|x| num_traits::ToPrimitive::to_u64(&(x % u64::MAX)).unwrap()).collect();
                if ps.t < bu(u64::MAX) {
                    su.case(&format!("encodings level {l} message {i}"), || {
                        use fhe_traits::{FheDecoder, FheDecrypter};
                        for simd in [false, true] {
                            let enc = if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
                            let Ok(pt) = Plaintext::try_encode(v.as_slice(), enc.clone(), &ps.par) else {
                                if simd {
                                    continue;
                                }
                                return Err("encoding failed".into());
                            };
                            let ptv = Plaintext::try_encode_vt(v.as_slice(), enc.clone(), &ps.par, tvt()).map_err(|e| e.to_string())?;
                            for (pt, k) in [(pt, 0), (ptv, 1)] {
                                let a: Ciphertext = ps.sk_enc(&pt, i as u64).map_err(|e| e.to_string())?;
                                let b: Ciphertext = rpk.try_encrypt(&pt, &mut rng(i as u64)).map_err(|e| e.to_string())?;
                                for (c, w) in [(&a, ps.w_sk()), (&b, ps.w_pk(l))] {
                                    if !ps.ok(&w, l) {
                                        continue;
                                    }
                                    let d = ps.sk.try_decrypt(c).map_err(|e| e.to_string())?;
                                    let got = Vec::<u64>::try_decode(&d, enc.clone()).map_err(|e| e.to_string())?;
                                    if got != v {
                                        return Err(format!("{enc:?} (path {k}): decrypted {got:?}, encrypted {v:?}"));
                                    }
                                }
                            }
                        }
                        Ok(1)
                    });
                }
            });
        });
    }
    // every message of tiny plaintext spaces
    for (tt, n) in [(2u64, 8usize), (3, 8)] {
        let ps = Ps::new("tiny", n, bu(tt), Mods::Sizes(&[20, 20]), 1, Secret::Random(21));
        r.suite(&format!("all-messages-t{tt}"), &format!("all {} messages of R_{tt} for N={n}, every level, both kinds of keys", tt.pow(n as u32)), |su| {
            let pk = ps.pk(5, 1, true);
            let total = tt.pow(n as u32) as usize;
            su.par_n(total, |k| {
                let mut x = k as u64;
                let m: Msg = (0..n).map(|_| { let d = x % tt; x /= tt; bu(d) }).collect();
                for l in 0..2 {
                    su.case(&format!("level {l} message {k}"), || {
                        let c = fresh(&ps, &m, l, k as u64, k, k % 2 == 0);
                        let mut z = verify(&ps, &c)?;
                        let c = fresh_pk(&ps, &pk, &m, l, k as u64);
                        z += verify(&ps, &c)?;
                        su.outcome(h64(&(k, l)));
                        Ok(z)
                    });
                }
            });
        });
    }
    // decryption as a function of the phase: every phase of tiny moduli, corners of large ones
    let q = ntt_primes(10, 16, 3);
    let mut cfgs: Vec<(u64, Vec<u64>)> = vec![(7, vec![q[0], q[1]]), (1000, vec![q[0], q[1]]), (961, vec![q[1], q[0]])];
    for tt in [2u64, 3, 4, 5, 16, 17, 100, 255, 256, 400, 480, 488, 489, 500, 512, 600, 640, 651, 652, 700, 800, 900] {
        if tt < q[0] {
            cfgs.push((tt, vec![q[0]]));
        }
    }
    for (tt, qs) in cfgs {
        let Ok(par) = mk_par(8, &bu(tt), &Mods::List(&qs), 1) else { continue };
        let ps = Ps::with(&format!("t{tt}"), par, 1, Secret::Random(22));
        r.suite(&format!("all-phases-t{tt}-{}moduli", qs.len()), &format!("every phase modulo each level of {qs:?}, t={tt}: decryption succeeds and rounds exactly"), |su| {
            for l in 0..qs.len() {
                if ps.qq(l) <= ps.t {
                    continue;
                }
                let qq: u64 = ps.ql(l).iter().product();
                let n8 = qq.div_ceil(8);
                let stride = if t || qq < 1 << 16 { 1 } else { 5 };
                let items: Vec<u64> = (0..n8.div_ceil(64)).collect();
                su.par(&items, |&blk| {
                    for b in (blk * 64..(blk * 64 + 64).min(n8)).filter(|b| b % stride == 0) {
                        let ph: Vec<BigUint> = (0..8).map(|j| bu((b * 8 + j) % qq)).collect();
                        su.case(&format!("level {l} phases from {}", b * 8), || {
                            let ct = with_phase(&ps, &ph, l, 2);
                            let d = ps.decrypt_coeffs(&ct)?;
                            let e = exact_decode(&ps, &ph, l);
                            if d != e {
                                return Err(format!("phase {ph:?} decrypts to {d:?}, exact {e:?}"));
                            }
                            su.outcome(h64(&d));
                            Ok(8)
                        });
                    }
                });
            }
        });
    }
    for f in sets() {
        let ps = f();
        let name = ps.name.clone();
        r.suite(&format!("phase-corners-{name}"), "phases on both sides of every kind of rounding boundary: (k + 1/2) Q / t for small, middle and large k, offset by -2..2, at every level, two to four parts", |su| {
            phase_corners(su, &ps, 4);
        });
    }
    plaintext_sizes(r);
    long_chains(r);
}
fn phase_corners(su: &Suite, ps: &Ps, parts: usize) {
    for l in 0..ps.levels() {
        let q = ps.qq(l);
        // below, boundaries are closer together than the margin
        if q <= ps.t || (parts == 2 && &q >> 8usize <= ps.t) {
            continue;
        }
        let mut ks: Vec<BigUint> = (0..6u32).map(BigUint::from).collect();
        for d in 0..6u32 {
            ks.push(&ps.t - 1u32 - (bu(d as u64) % &ps.t));
            ks.push(&ps.t / 2u32 + d);
        }
        let mut ph = vec![];
        for k in &ks {
            let b = (k * 2u32 + 1u32) * &q / (&ps.t * 2u32);
            // far enough from a tie for the library's 127 fractional bits, and as close as that allows
            let margin = ((&q / &ps.t) >> 56usize) + 2u32;
            for m in [&margin, &(&margin * 3u32)] {
                ph.push((&b + m) % &q);
                ph.push((&b + &q - m) % &q);
            }
            ph.push(k * &q / &ps.t % &q);
        }
        for (i, ch) in ph.chunks(ps.n).enumerate() {
            let mut v = ch.to_vec();
            v.resize(ps.n, bu(0));
            for parts in 2..=parts {
                su.case(&format!("{} level {l} chunk {i} parts {parts}", ps.name), || {
                    let ct = with_phase(ps, &v, l, parts);
                    let d = ps.decrypt_coeffs(&ct)?;
                    let e = exact_decode(ps, &v, l);
                    if d != e {
                        let j = (0..ps.n).find(|j| d[*j] != e[*j]).unwrap();
                        return Err(format!("phase {} of {q} decrypts to {}, exact {}", v[j], d[j], e[j]));
                    }
                    su.outcome(h64(&(l, i, parts)));
                    Ok(ps.n as u64)
                });
            }
        }
    }
}
/// Ciphertexts whose residues drive the sums over the moduli made on decryption to their extremes.
fn long_chains(r: &Rep) {
    let ns: &[usize] = if r.thorough { &[9, 10, 12, 16, 20, 24, 32, 40, 48, 64] } else { &[9, 14, 20, 28] };
    r.suite("long-chains", &format!("{ns:?} moduli of 62 bits x plaintext moduli 2, 17, 2^40+15 and 2^130+51 x the first, second and middle level x phases with residues q_i - 1 (or 1/2, 3/4, 7/8 of that) exactly where t/q_i has a positive, negative or any rounded-away part"), |su| {
        let big = (BigUint::from(1u32) << 130usize) + 51u32;
        let items: Vec<(usize, BigUint)> = ns.iter().rev().flat_map(|n| [bu(2), bu(17), bu((1 << 40) + 15), big.clone()].map(|t| (*n, t))).collect();
        su.par(&items, |(n, t)| {
            let n = *n;
            let ps = Ps::new(&format!("{n}x62-t{t}"), 8, t.clone(), Mods::Sizes(&vec![62; n]), 3, Secret::Random(5));
            for l in [0, 1, n / 2] {
                let (m, q) = (ps.ql(l).to_vec(), ps.qq(l));
                let pos: Vec<bool> = m.iter().map(|qi| {
                    let h = &q / *qi;
                    let g = &h * inv_naive(num_traits::ToPrimitive::to_u64(&(&h % *qi)).unwrap(), *qi).unwrap();
                    (&g * &ps.t * 2u32) % (&q * 2u32) < q
                }).collect();
                let mut ph = vec![];
                for pat in 0..4usize {
                    for sh in [(1u128, 1u128), (7, 8), (3, 4), (1, 2)] {
                        let rests: Vec<u64> = (0..m.len()).map(|i| if match pat { 0 => pos[i], 1 => !pos[i], 2 => true, _ => i % 2 == 0 } { ((m[i] - 1) as u128 * sh.0 / sh.1) as u64 } else { 0 }).collect();
                        let x = crt(&rests, &m);
                        // away from ties, where the result is determined
                        if scale_ok(&x, &q, &ps.t, &q).len() == 1 {
                            ph.push(x);
                        }
                    }
                }
                for (i, v) in ph.iter().enumerate() {
                    su.case(&format!("{} level {l} phase {i}", ps.name), || {
                        let v = vec![v.clone(); ps.n];
                        for parts in [2, 3] {
                            let d = ps.decrypt_coeffs(&with_phase(&ps, &v, l, parts))?;
                            let e = exact_decode(&ps, &v, l);
                            if d != e {
                                return Err(format!("phase {} of {q} decrypts to {}, exact {}", v[0], d[0], e[0]));
                            }
                        }
                        su.outcome(h64(&(n, l, i)));
                        Ok(2)
                    });
                }
            }
        });
    });
}
/// Plaintext moduli at everything the sizes and products of the first moduli define, for moduli at both ends of their sizes.
pub fn plaintext_moduli(q: &[u64], ds: &[u32]) -> Vec<BigUint> {
    let mut v = vec![];
    let mut near = |x: BigUint| {
        for d in ds {
            if x > bu(8) {
                v.push(&x - *d);
                v.push(&x + *d);
            }
        }
        v.push(x);
    };
    let mut bits = 0;
    for k in 1..q.len() {
        let p = prod(&q[..k]);
        bits += 64 - q[k - 1].leading_zeros() as usize;
        near(&p / 2u32);
        near(p.clone());
        near(&p * 2u32);
        for c in 0..=k + 1 {
            near(BigUint::from(1u32) << (bits + 1 - c));
        }
        for c in [55, 57, 59, 60, 61, 62] {
            if bits > c + 2 {
                near(BigUint::from(1u32) << (bits - c));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn modulus_lists(t: bool) -> Vec<Vec<u64>> {
    // just above and just below the powers of two
    let low = |b: u32, c: usize| -> Vec<u64> {
        let mut v = vec![];
        let mut x = (1u64 << (b - 1)) + 1;
        while v.len() < c {
            x += 16;
            if is_prime64(x) {
                v.push(x);
            }
        }
        v
    };
    let mut out = vec![];
    let sizes: &[u32] = if t { &[13, 20, 21, 30, 31, 32, 41, 50, 61, 62] } else { &[20, 31, 41, 62] };
    for b in sizes {
        for n in 2..=if t { 6 } else { 4 } {
            let (l, h) = (low(*b, n), ntt_primes(*b, 16, n));
            let mixed: Vec<u64> = (0..n).map(|i| if i % 2 == 0 { l[i] } else { h[i] }).collect();
            out.extend([l, h, mixed]);
        }
    }
    for (a, b) in [(20, 62), (62, 20), (30, 41), (61, 31)] {
        for (p, q) in [(low(a, 2), low(b, 3)), (ntt_primes(a, 16, 2), ntt_primes(b, 16, 3)), (low(a, 2), ntt_primes(b, 16, 3))] {
            out.push(p.iter().chain(&q).copied().collect());
            out.push(vec![p[0], q[0], p[1], q[1], q[2]]);
        }
    }
    out
}
fn plaintext_sizes(r: &Rep) {
    let lists = modulus_lists(r.thorough);
    let ds: &[u32] = if r.thorough { &[1, 2] } else { &[1] };
    r.suite("plaintext-sizes", &format!("{} lists of 2 to {} moduli just above or just below powers of two, equal and mixed sizes, x plaintext moduli at, next to, half and twice each product of the first moduli and at each power of two their sizes reach: every kind of rounding boundary at every level", lists.len(), 5 + r.thorough as usize), |su| {
        let items: Vec<(Vec<u64>, BigUint)> = lists.iter().flat_map(|q| plaintext_moduli(q, ds).into_iter().map(move |t| (q.clone(), t))).collect();
        su.par(&items, |(q, t)| {
            // what is not accepted is B01's business
            let Ok(par) = mk_par(8, t, &Mods::List(q), 1) else { return };
            let ps = Ps::with(&format!("{q:?} t={t}"), par, 1, Secret::Random(23));
            phase_corners(su, &ps, 2);
        });
    });
}
