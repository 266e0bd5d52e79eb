//! B18: what the library leaves behind in the memory it gives back. The allocator of this binary copies every block
//! released while a recording is on; the blocks are then searched for the words of the secrets involved.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;
#[derive(Clone, Copy)]
struct Log {
    buf: *mut u64,
    /// words used
    len: usize,
    on: bool,
    full: bool,
}
const CAP: usize = 1 << 20;
thread_local! {
    static LOG: Cell<Log> = const { Cell::new(Log { buf: std::ptr::null_mut(), len: 0, on: false, full: false }) };
}
fn on() -> bool {
    LOG.try_with(|c| c.get().on).unwrap_or(false)
}
/// Appends [number of words, words..] to the log.
unsafe fn record(p: *const u8, n: usize) {
    let _ = LOG.try_with(|c| {
        let mut s = c.get();
        let k = n / 8;
        if k < MIN || !(p as usize).is_multiple_of(8) {
            return;
        }
        if s.len + k + 1 > CAP {
            s.full = true;
        } else {
            unsafe {
                *s.buf.add(s.len) = k as u64;
                // never-written tails are copied as they are: whatever is there is what somebody else could find
                std::ptr::copy_nonoverlapping(p as *const u64, s.buf.add(s.len + 1), k);
            }
            s.len += k + 1;
        }
        c.set(s);
    });
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { if on() { System.alloc_zeroed(l) } else { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if on() {
                record(p, l.size());
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            if on() {
                // growing or shrinking may move the block
                let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                    self.dealloc(p, l);
                }
                return q;
            }
            System.realloc(p, l, n)
        }
    }
}
/// at least this many secret words make a block a leak
const MIN: usize = 4;

/// Runs f and returns its result and the contents of every block released meanwhile by this thread.
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u64>>) {
    LOG.with(|c| {
        let mut s = c.get();
        if s.buf.is_null() {
            s.buf = unsafe { System.alloc(Layout::array::<u64>(CAP).unwrap()) as *mut u64 };
        }
        c.set(Log { len: 0, on: true, full: false, ..s });
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let s = LOG.with(|c| {
        let s = c.get();
        c.set(Log { on: false, ..s });
        s
    });
    assert!(!s.full, "the log of released blocks is too small");
    let w = unsafe { std::slice::from_raw_parts(s.buf, s.len) };
    let mut out = vec![];
    let mut i = 0;
    while i < w.len() {
        let k = w[i] as usize;
        out.push(w[i + 1..i + 1 + k].to_vec());
        i += k + 1;
    }
    (r.unwrap_or_else(|e| std::panic::resume_unwind(e)), out)
}

use crate::a_poly::{coeffs, pb};
use crate::b_core::*;
use crate::b_ops::lv;
use crate::core::*;
use crate::model::*;
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe::proto::bfv as proto;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use prost::Message;
use std::collections::HashSet;
use std::sync::Arc;
use zeroize::Zeroize;

/// words closer to zero, from either side, are too common to identify anything
const LOW: u64 = 1 << 20;
type Rows = Vec<Vec<u64>>;
#[derive(Default)]
struct Secrets(Vec<(String, HashSet<u64>)>);
impl Secrets {
    /// A polynomial in every form it may be held in: coefficients, transformed, Shoup companions; and its negative.
    fn poly(&mut self, what: &str, ctx: &Arc<Context>, rows: &Rows) {
        let mut w = HashSet::new();
        let q = ctx.moduli();
        let neg: Rows = rows.iter().zip(q).map(|(r, q)| r.iter().map(|x| (q - x) % q).collect()).collect();
        for r in [rows, &neg] {
            let p = pb(ctx, r, false);
            // small ones occur by themselves, as errors
            for (row, q) in p.coefficients().outer_iter().zip(q) {
                w.extend(row.iter().filter(|x| **x + LOW.min(q / 2) < *q));
            }
            let z = p.into_ntt();
            for (row, q) in z.coefficients().outer_iter().zip(q) {
                w.extend(row.iter());
                w.extend(row.iter().map(|x| (((*x as u128) << 64) / *q as u128) as u64));
            }
        }
        self.words(what, w);
    }
    fn words(&mut self, what: &str, w: impl IntoIterator<Item = u64>) {
        let w: HashSet<u64> = w.into_iter().filter(|x| *x > LOW && *x < u64::MAX - LOW).collect();
        if w.len() >= MIN {
            self.0.push((what.into(), w));
        }
    }
    fn check(&self, released: &[Vec<u64>]) -> Result<u64, String> {
        for b in released {
            for (what, w) in &self.0 {
                let k = b.iter().filter(|x| w.contains(x)).count();
                if k >= MIN {
                    return Err(format!("a released block of {} bytes still holds {k} words of {what}", 8 * b.len()));
                }
            }
        }
        Ok(1 + released.len() as u64)
    }
}
fn res(v: &[i64], q: &[u64]) -> Rows {
    q.iter().map(|q| v.iter().map(|x| (*x as i128).rem_euclid(*q as i128) as u64).collect()).collect()
}
fn mulr(a: &Rows, b: &Rows, q: &[u64]) -> Rows {
    q.iter().enumerate().map(|(i, q)| negmul(&a[i], &b[i], *q)).collect()
}
fn subr(a: &Rows, b: &Rows, q: &[u64]) -> Rows {
    q.iter().enumerate().map(|(i, q)| a[i].iter().zip(&b[i]).map(|(x, y)| (x + q - y) % q).collect()).collect()
}
fn scal(a: &Rows, k: &BigUint, q: &[u64]) -> Rows {
    q.iter().enumerate().map(|(i, q)| a[i].iter().map(|x| mulmod(*x, (k % *q).to_u64().unwrap(), *q)).collect()).collect()
}
fn auto(v: &[i64], e: usize) -> Vec<i64> {
    let n = v.len();
    let mut o = vec![0; n];
    for (j, x) in v.iter().enumerate() {
        let k = j * e % (2 * n);
        o[k % n] = if k >= n { -x } else { *x };
    }
    o
}
fn ntt_rows(p: &Poly<Ntt>) -> Rows {
    coeffs(&p.to_power_basis())
}
/// The key itself: as stored, and as a polynomial at every level, with its square and its images.
fn key_secrets(ps: &Ps, s: &[i64], name: &str) -> Secrets {
    let mut z = Secrets::default();
    z.words(name, s.iter().map(|x| *x as u64));
    for l in 0..ps.levels() {
        let ctx = ps.par.context_at_level(l).unwrap();
        let q = ps.ql(l);
        let r = res(s, q);
        z.poly(&format!("{name} modulo level {l}"), ctx, &r);
        let s2 = mulr(&r, &r, q);
        z.poly(&format!("the square of {name} modulo level {l}"), ctx, &s2);
        for e in (3..2 * ps.n).step_by(2) {
            z.poly(&format!("{name} under x -> x^{e} modulo level {l}"), ctx, &res(&auto(s, e), q));
        }
    }
    z
}
/// What a key-switching key of `from` (residues at the ciphertext level, as coefficients) is made of.
fn ksk_secrets(z: &mut Secrets, ps: &Ps, k: &proto::KeySwitchingKey, from: &Rows, what: &str) {
    let (cl, kl) = (k.ciphertext_level as usize, k.ksk_level as usize);
    let ctx = ps.par.context_at_level(kl).unwrap();
    let (qc, qk) = (ps.ql(cl), ps.ql(kl));
    let lift = prod(qk) / prod(qc);
    // the lifted polynomial
    let f: Vec<BigUint> = (0..ps.n).map(|j| crt(&from.iter().map(|r| r[j]).collect::<Vec<_>>(), qc)).collect();
    let fk: Rows = qk.iter().map(|q| f.iter().map(|x| (x * &lift % *q).to_u64().unwrap()).collect()).collect();
    z.poly(&format!("{what}, lifted"), ctx, &fk);
    let c1: Vec<Rows> = if k.seed.is_empty() {
        k.c1.iter().map(|b| coeffs(&Poly::<NttShoup>::from_bytes(b, ctx).unwrap().into_ntt().into_power_basis())).collect()
    } else {
        use rand::{Rng, SeedableRng};
        let mut r = rand_chacha::ChaCha8Rng::from_seed(k.seed.as_slice().try_into().unwrap());
        (0..k.c0.len()).map(|_| {
            let mut sd = [0u8; 32];
            r.fill_bytes(&mut sd);
            coeffs(&Poly::<Ntt>::random_from_seed(ctx, sd).into_power_basis())
        }).collect()
    };
    let s = res(&ps.s, qk);
    for (i, a) in c1.iter().enumerate() {
        z.poly(&format!("component {i} times the key, {what}"), ctx, &mulr(a, &s, qk));
        let g = if k.log_base > 0 {
            BigUint::from(1u32) << (i * k.log_base as usize)
        } else {
            let c = prod(qc) / qc[i];
            let inv = inv_naive((&c % qc[i]).to_u64().unwrap(), qc[i]).unwrap();
            c * inv
        };
        z.poly(&format!("gadget {i} times {what}"), ctx, &scal(&fk, &g, qk));
    }
}
/// products of the parts of a ciphertext with powers of the key, and the phase
fn ct_secrets(z: &mut Secrets, ps: &Ps, ct: &Ciphertext, l: usize, s: &[i64]) {
    let ctx = ps.par.context_at_level(l).unwrap();
    let q = ps.ql(l);
    let sr = res(s, q);
    let mut pw = sr.clone();
    let mut ph = ntt_rows(&ct[0]);
    for i in 1..ct.len() {
        let p = mulr(&ntt_rows(&ct[i]), &pw, q);
        z.poly(&format!("part {i} times power {i} of the key"), ctx, &p);
        z.poly(&format!("power {i} of the key"), ctx, &pw);
        let zero: Rows = vec![vec![0; ps.n]; q.len()];
        ph = subr(&ph, &subr(&zero, &p, q), q);
        z.poly(&format!("the phase of the first {} parts", i + 1), ctx, &ph);
        pw = mulr(&pw, &sr, q);
    }
}
fn sets(t: bool) -> Vec<Ps> {
    let tp = ntt_primes(40, 32, 1)[0];
    let big = |n: i64| -> Vec<i64> { (0..n).map(|i| (0x1234567 + i * 0x7654321 * (i + 3)) * if i % 2 == 0 { 1 } else { -1 }).collect() };
    let mut v = vec![
        // coefficients that identify the key in any form; decryptions are meaningless, but follow the same path
        Ps::new("marked-n8-62,61,60", 8, bu(tp), Mods::Sizes(&[62, 61, 60]), 3, Secret::List(big(8))),
        Ps::new("genuine-n16-62,50,62", 16, bu(97), Mods::Sizes(&[62, 50, 62]), 10, Secret::Random(5)),
        Ps::new("marked-n8-62", 8, bu(17), Mods::Sizes(&[62]), 3, Secret::List(big(8))),
        Ps::new("genuine-n8-t70bit-4x62", 8, (BigUint::from(1u32) << 70usize) + 25u32, Mods::Sizes(&[62; 4]), 10, Secret::Random(6)),
    ];
    if t {
        v.push(Ps::new("marked-n16-t2-5x40", 16, bu(2), Mods::Sizes(&[40; 5]), 1, Secret::List(big(16))));
        v.push(Ps::new("marked-n32-41,62,62", 32, bu(193), Mods::Sizes(&[41, 62, 62]), 10, Secret::List(big(32))));
        v.push(Ps::new("t>q0", 8, bu((1 << 31) + 11), Mods::Sizes(&[30, 62, 62]), 2, Secret::List(big(8))));
    }
    v
}
fn ksk(b: Option<&proto::KeySwitchingKey>) -> &proto::KeySwitchingKey {
    b.expect("key switching key")
}
pub fn b18(r: &Rep) {
    let t = r.thorough;
    r.suite("key-holders", "secret keys (sampled, read, cloned), evaluation key builders after every prefix of enable calls, failed calls: every block released until after the drop, all parameter sets", |su| {
        for ps in sets(t) {
            let z = key_secrets(&ps, &ps.s, "the key");
            let go = |k: &str, f: &dyn Fn()| {
                su.case(&format!("{} {k}", ps.name), || {
                    let (_, b) = recorded(f);
                    su.outcome(h64(&(k, b.len())));
                    z.check(&b)
                });
            };
            go("clone and drop", &|| drop(ps.sk.clone()));
            go("compare", &|| assert!(ps.sk == ps.sk.clone()));
            go("write", &|| { let mut b = ps.sk.to_bytes(); b.zeroize(); });
            go("zeroize", &|| { let mut k = ps.sk.clone(); k.zeroize(); drop(k) });
            for (i, j) in [(0, 0), (1, 0), (1, 1)] {
                if i >= ps.levels() {
                    continue;
                }
                go(&format!("builder {i} {j}"), &|| drop(EvaluationKeyBuilder::new_leveled(&ps.sk, i, j)));
                go(&format!("builder {j} {i} (wrong way when different)"), &|| drop(EvaluationKeyBuilder::new_leveled(&ps.sk, j, i)));
                go(&format!("builder {i} {j}, everything asked"), &|| {
                    let Ok(mut b) = EvaluationKeyBuilder::new_leveled(&ps.sk, i, j) else { return };
                    let _ = b.enable_inner_sum();
                    let _ = b.enable_row_rotation();
                    let _ = b.enable_expansion(1);
                    let _ = b.enable_expansion(99);
                    let _ = b.enable_column_rotation(1);
                    let _ = b.enable_column_rotation(0);
                });
                go(&format!("relinearisation key {j} {i}"), &|| { if i != j { drop(RelinearizationKey::new_leveled(&ps.sk, j, i, &mut rng(3))) } });
            }
            let other = mk_par(ps.n, &bu(3), &Mods::List(&ps.q), 2).unwrap();
            go("foreign plaintext", &|| {
                let pt = Plaintext::try_encode(&[1u64, 2], Encoding::poly(), &other).unwrap();
                let e: fhe::Result<Ciphertext> = ps.sk.try_encrypt(&pt, &mut rng(3));
                assert!(e.is_err());
            });
            // a sampled key: known afterwards
            su.case(&format!("{} sampled", ps.name), || {
                let (k, b) = recorded(|| SecretKey::random(&ps.par, &mut rng(17)));
                key_secrets(&ps, &sk_coeffs(&k), "the sampled key").check(&b)
            });
            let w = key_secrets(&ps, &ps.s, "the key");
            su.case(&format!("{} dropped key", ps.name), || {
                let k = sk_from(&ps.par, &ps.s);
                let (_, b) = recorded(|| drop(k));
                if b.is_empty() {
                    return Err("nothing was released".into());
                }
                w.check(&b)
            });
        }
    });
    r.suite("plaintext-holders", "plaintexts and plaintext vectors of every level and encoding: the blocks released by dropping them", |su| {
        for ps in sets(t) {
            for l in lv(&ps) {
                for (i, m) in messages(&ps, 12).iter().enumerate() {
                    su.case(&format!("{} level {l} message {i}", ps.name), || {
                        let ctx = ps.par.context_at_level(l).unwrap();
                        let mut z = Secrets::default();
                        z.poly("the message", ctx, &ps.to_rows(m, l));
                        let p = ps.plaintext(m, l);
                        let q = p.clone();
                        let mut e = p.clone();
                        e.zeroize();
                        if e != Plaintext::zero(Encoding::poly_at_level(l), &ps.par).unwrap() {
                            return Err("an erased plaintext is not the zero plaintext".into());
                        }
                        let d = ps.sk_enc(&p, 3).ok().and_then(|c| ps.sk.try_decrypt(&c).ok()).filter(|d| pt_coeffs(&ps, d).as_ref() == Ok(m));
                        let (_, b) = recorded(|| drop((p, q, d)));
                        if b.is_empty() {
                            return Err("nothing was released".into());
                        }
                        z.check(&b)
                    });
                }
                if let Some(tt) = ps.t.to_u64() {
                    su.case(&format!("{} level {l} vector", ps.name), || {
                        let v: Vec<u64> = (0..3 * ps.n as u64 - 1).map(|i| (i * i * 0x1234_5671 + 3) % tt).collect();
                        let ctx = ps.par.context_at_level(l).unwrap();
                        let mut z = Secrets::default();
                        for c in v.chunks(ps.n) {
                            let mut m: Msg = c.iter().map(|x| bu(*x)).collect();
                            m.resize(ps.n, bu(0));
                            z.poly("the message", ctx, &ps.to_rows(&m, l));
                        }
                        let p = PlaintextVec::try_encode(v.as_slice(), Encoding::poly_at_level(l), &ps.par).map_err(|e| e.to_string())?;
                        let (_, b) = recorded(|| drop(p));
                        z.check(&b)
                    });
                }
            }
        }
    });
    r.suite("encryption", "secret-key and public-key encryption, RGSW encryption, decryption and noise measurement of 2 to 4 parts, at every level: every block released", |su| {
        for ps in sets(t) {
            let base = key_secrets(&ps, &ps.s, "the key").0;
            let items: Vec<(usize, usize)> = lv(&ps).into_iter().flat_map(|l| (0..if t { 12 } else { 4 }).map(move |i| (l, i))).collect();
            su.par(&items, |&(l, i)| {
                let ms = messages(&ps, 12);
                let m = &ms[(i + 9) % 12];
                let q = ps.ql(l);
                let ctx = ps.par.context_at_level(l).unwrap();
                let pt = ps.plaintext(m, l);
                let fresh = || Secrets(base.clone());
                su.case(&format!("{} level {l} encrypt {i}", ps.name), || {
                    let (c, b) = recorded(|| ps.sk_enc(&pt, i as u64));
                    let c = c.map_err(|e| e.to_string())?;
                    let mut z = fresh();
                    ct_secrets(&mut z, &ps, &c, l, &ps.s);
                    let e = subr(&ps.to_rows(&ps.phase(&c), l), &ps.to_rows(&ps.scaled(m, l), l), q);
                    z.poly("the error", ctx, &e);
                    z.poly("the scaled message", ctx, &ps.to_rows(&ps.scaled(m, l), l));
                    su.outcome(b.len() as u64);
                    z.check(&b)
                });
                for parts in 2..=4usize {
                    su.case(&format!("{} level {l} decrypt {parts} parts {i}", ps.name), || {
                        let mut c = ps.sk_enc(&pt, i as u64).map_err(|e| e.to_string())?;
                        let d = c.clone();
                        for _ in 2..parts {
                            c = &c * &d;
                        }
                        let mut z = fresh();
                        ct_secrets(&mut z, &ps, &c, l, &ps.s);
                        let (r, b) = recorded(|| ps.sk.try_decrypt(&c));
                        r.map_err(|e| e.to_string())?;
                        let k = z.check(&b)?;
                        // the noise itself is what measuring returns; the key must not stay behind
                        z.0.retain(|(n, _)| !n.starts_with("the phase"));
                        let (r, b) = recorded(|| unsafe { ps.sk.measure_noise(&c) });
                        r.map_err(|e| e.to_string())?;
                        Ok(k + z.check(&b)?)
                    });
                }
                su.case(&format!("{} level {l} public-key encryption {i}", ps.name), || {
                    // a public key (0, 2^20 at the constant coefficient): both sampled polynomials can be read off the result
                    let ctx0 = ps.par.context_at_level(0).unwrap();
                    let k = 1u64 << 12;
                    let mut kk = vec![vec![0u64; ps.n]; ps.q.len()];
                    kk.iter_mut().for_each(|r| r[0] = k);
                    let zero = Poly::<Ntt>::zero(ctx0);
                    let cp = proto::Ciphertext { c: vec![zero.to_bytes(), pb(ctx0, &kk, true).into_ntt().to_bytes()], seed: vec![], level: 0 };
                    let pk = PublicKey::from_bytes(&proto::PublicKey { c: Some(cp) }.encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                    let (c, b) = recorded(|| -> fhe::Result<Ciphertext> { pk.try_encrypt(&pt, &mut rng(i as u64)) });
                    let c = c.map_err(|e| e.to_string())?;
                    // the switched key is what encryption multiplies with
                    let mut z = fresh();
                    z.poly("the scaled message", ctx, &ps.to_rows(&ps.scaled(m, l), l));
                    if l == 0 {
                        let c1 = ntt_rows(&c[1]);
                        let u: Vec<i64> = c1[0].iter().map(|x| {
                            let y = centre(&bu(*x), &bu(q[0])).to_i64().unwrap();
                            (y + k as i64 / 2).div_euclid(k as i64)
                        }).collect();
                        if u.iter().any(|x| x.unsigned_abs() > ps.b) {
                            return Err("the ephemeral secret exceeds its bound".into());
                        }
                        let ur = res(&u, q);
                        z.poly("the ephemeral secret", ctx, &ur);
                        z.poly("the ephemeral secret times the key", ctx, &scal(&ur, &bu(k), q));
                        z.poly("the second error", ctx, &subr(&c1, &scal(&ur, &bu(k), q), q));
                        z.poly("the first error", ctx, &subr(&ntt_rows(&c[0]), &ps.to_rows(&ps.scaled(m, l), l), q));
                        // small values as they are sampled
                        z.words("the sampled ephemeral secret", u.iter().map(|x| *x as u64));
                    }
                    z.check(&b)
                });
                su.case(&format!("{} level {l} RGSW {i}", ps.name), || {
                    let (c, b) = recorded(|| -> fhe::Result<RGSWCiphertext> { ps.sk.try_encrypt(&pt, &mut rng(i as u64)) });
                    let c = c.map_err(|e| e.to_string())?;
                    let p = proto::RgswCiphertext::decode(c.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                    let mut z = fresh();
                    let mr = ps.to_rows(m, l);
                    let msr = mulr(&mr, &res(&ps.s, q), q);
                    z.poly("the message times the key", ctx, &msr);
                    // the multiples of a monomial are public constants of the parameters
                    if m.iter().filter(|x| **x != bu(0)).count() > ps.n / 2 {
                        ksk_secrets(&mut z, &ps, ksk(p.ksk0.as_ref()), &mr, "the message");
                    }
                    ksk_secrets(&mut z, &ps, ksk(p.ksk1.as_ref()), &msr, "the message times the key");
                    z.check(&b)
                });
            });
        }
    });
    r.suite("keys", "public keys, relinearisation keys and evaluation keys with every rotation and expansion, at every (ciphertext level, key level): every block released while they are made", |su| {
        for ps in sets(t) {
            let base = key_secrets(&ps, &ps.s, "the key").0;
            let fresh = || Secrets(base.clone());
            su.case(&format!("{} public key", ps.name), || {
                let (k, b) = recorded(|| PublicKey::new(&ps.sk, &mut rng(3)));
                let p = proto::PublicKey::decode(k.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                let c = Ciphertext::from_bytes(&p.c.unwrap().encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                let mut z = fresh();
                ct_secrets(&mut z, &ps, &c, 0, &ps.s);
                z.check(&b)
            });
            let items: Vec<(usize, usize)> = (0..ps.levels()).flat_map(|l| (0..=l).map(move |k| (l, k))).collect();
            su.par(&items, |&(l, k)| {
                let q = ps.ql(l);
                let s = res(&ps.s, q);
                if ps.ql(k).len() > 1 {
                    su.case(&format!("{} relinearisation key {l} {k}", ps.name), || {
                        let (rk, b) = recorded(|| RelinearizationKey::new_leveled(&ps.sk, l, k, &mut rng(4)));
                        let rk = rk.map_err(|e| e.to_string())?;
                        let p = proto::RelinearizationKey::decode(rk.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                        let mut z = fresh();
                        ksk_secrets(&mut z, &ps, ksk(p.ksk.as_ref()), &mulr(&s, &s, q), "the square of the key");
                        su.outcome(b.len() as u64);
                        z.check(&b)
                    });
                }
                let mut what: Vec<(String, Box<dyn Fn(&mut EvaluationKeyBuilder) -> bool + Sync>)> = vec![
                    ("row rotation".into(), Box::new(|b| b.enable_row_rotation().is_ok())),
                    ("inner sum".into(), Box::new(|b| b.enable_inner_sum().is_ok())),
                    ("expansion".into(), Box::new(|b| b.enable_expansion(3).is_ok())),
                ];
                for i in 1..ps.n / 2 {
                    what.push((format!("column rotation {i}"), Box::new(move |b| b.enable_column_rotation(i).is_ok())));
                }
                for (name, en) in &what {
                    su.case(&format!("{} {name} key {l} {k}", ps.name), || {
                        let (ek, b) = recorded(|| {
                            let mut bd = EvaluationKeyBuilder::new_leveled(&ps.sk, l, k).ok()?;
                            if !en(&mut bd) {
                                return None;
                            }
                            Some(bd.build(&mut rng(5)))
                        });
                        let mut z = fresh();
                        if let Some(ek) = ek {
                            let ek = ek.map_err(|e| e.to_string())?;
                            let p = proto::EvaluationKey::decode(ek.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                            for g in &p.gk {
                                let e = g.exponent as usize;
                                ksk_secrets(&mut z, &ps, ksk(g.ksk.as_ref()), &res(&auto(&ps.s, e), q), &format!("the key under x -> x^{e}"));
                            }
                            su.outcome(h64(&(name, b.len())));
                        }
                        z.check(&b)
                    });
                }
            });
        }
    });
    multiparty(r);
    erased(r);
}
fn multiparty(r: &Rep) {
    let t = r.thorough;
    r.suite("multiparty", "every message of the multiparty protocols (public key share, both relinearisation rounds, secret and public key switching shares, decryption share) at every level: every block released", |su| {
        for ps in sets(t) {
            let base = key_secrets(&ps, &ps.s, "the key share").0;
            let out: Vec<i64> = ps.s.iter().enumerate().map(|(i, x)| x.wrapping_mul(3) + 0x3333_3333 * (i as i64 + 1)).collect();
            let skout = sk_from(&ps.par, &out);
            let ctx0 = ps.par.context_at_level(0).unwrap();
            let q0 = ps.ql(0);
            su.case(&format!("{} public key share", ps.name), || {
                let crp = CommonRandomPoly::new(&ps.par, &mut rng(1)).map_err(|e| e.to_string())?;
                let (sh, b) = recorded(|| PublicKeyShare::new(&ps.sk, crp.clone(), &mut rng(2)));
                let pk: PublicKey = [sh.map_err(|e| e.to_string())?].into_iter().aggregate().map_err(|e| e.to_string())?;
                let p = proto::PublicKey::decode(pk.to_bytes().as_slice()).map_err(|e| e.to_string())?;
                let c = Ciphertext::from_bytes(&p.c.unwrap().encode_to_vec(), &ps.par).map_err(|e| e.to_string())?;
                let mut z = Secrets(base.clone());
                ct_secrets(&mut z, &ps, &c, 0, &ps.s);
                z.check(&b)
            });
            if ps.levels() > 1 {
                su.case(&format!("{} relinearisation rounds", ps.name), || {
                    let crps = CommonRandomPoly::new_vec(&ps.par, &mut rng(7)).map_err(|e| e.to_string())?;
                    let u = Poly::<PowerBasis>::small(ctx0, ps.var as usize, &mut rng(8)).map_err(|e| e.to_string())?;
                    let (res_, b) = recorded(|| -> fhe::Result<_> {
                        let g = RelinKeyGenerator::new(&ps.sk, &crps, &mut rng(8))?;
                        let r1 = g.round_1(&mut rng(9))?;
                        let agg = Arc::new(RelinKeyShare::from_shares([r1])?);
                        let r2 = g.round_2(&agg, &mut rng(10))?;
                        drop(g);
                        Ok((agg, r2))
                    });
                    let (_agg, r2) = res_.map_err(|e| e.to_string())?;
                    let mut z = Secrets(base.clone());
                    let ur = coeffs(&u);
                    let s = res(&ps.s, q0);
                    z.poly("the ephemeral secret", ctx0, &ur);
                    z.poly("the ephemeral secret minus the key share", ctx0, &subr(&ur, &s, q0));
                    let mut r = rng(7);
                    for (i, _) in crps.iter().enumerate() {
                        let a = coeffs(&Poly::<Ntt>::random(ctx0, &mut r).into_power_basis());
                        z.poly("a common polynomial times the key share", ctx0, &mulr(&a, &s, q0));
                        z.poly("a common polynomial times the ephemeral secret", ctx0, &mulr(&a, &ur, q0));
                        let c = prod(q0) / q0[i];
                        let inv = inv_naive((&c % q0[i]).to_u64().unwrap(), q0[i]).unwrap();
                        z.poly("a gadget times the key share", ctx0, &scal(&s, &(c * inv), q0));
                    }
                    let _rk: RelinearizationKey = [r2].into_iter().aggregate().map_err(|e| e.to_string())?;
                    su.outcome(b.len() as u64);
                    z.check(&b)
                });
            }
            for l in lv(&ps) {
                let q = ps.ql(l);
                let ctx = ps.par.context_at_level(l).unwrap();
                let m = &messages(&ps, 12)[9];
                for kind in 0..3 {
                    su.case(&format!("{} level {l} switching share {kind}", ps.name), || {
                        let c = Arc::new(ps.sk_enc(&ps.plaintext(m, l), 3).map_err(|e| e.to_string())?);
                        let mut z = Secrets(base.clone());
                        z.0.extend(key_secrets(&ps, &out, "the output key").0);
                        ct_secrets(&mut z, &ps, &c, l, &ps.s);
                        let d: Vec<i64> = ps.s.iter().zip(&out).map(|(a, b)| a - b).collect();
                        z.poly("the difference of the keys", ctx, &res(&d, q));
                        z.poly("the difference of the keys times the second part", ctx, &mulr(&res(&d, q), &ntt_rows(&c[1]), q));
                        let pk = ps.pk(5, 1, false);
                        let u = Poly::<PowerBasis>::small(ctx, ps.var as usize, &mut rng(6)).map_err(|e| e.to_string())?;
                        let (e, b) = match kind {
                            0 => { let (x, b) = recorded(|| SecretKeySwitchShare::new(&ps.sk, &skout, c.clone(), &mut rng(6))); (x.map(|s| std::mem::forget(s)), b) }
                            1 => { let (x, b) = recorded(|| DecryptionShare::new(&ps.sk, &c, &mut rng(6))); (x.map(|s| std::mem::forget(s)), b) }
                            _ => {
                                z.poly("the ephemeral secret", ctx, &coeffs(&u));
                                let (x, b) = recorded(|| PublicKeySwitchShare::new(&ps.sk, &pk, &c, &mut rng(6)));
                                (x.map(|s| std::mem::forget(s)), b)
                            }
                        };
                        e.map_err(|e| e.to_string())?;
                        z.check(&b)
                    });
                }
            }
        }
    });
}
/// Erasing leaves exactly the zero object.
fn erased(r: &Rep) {
    r.suite("erased", "polynomials in every representation and from every source (read, sampled, lazily reduced, switched, substituted, sums, products, column-major arrays), secret keys: after zeroize() they equal the zero object", |su| {
        for (n, qs) in [(8usize, ntt_primes(62, 16, 3)), (16, ntt_primes(20, 32, 2)), (8, vec![97])] {
            let ctx = Context::new_arc(&qs, n).unwrap();
            let mut list: Vec<(String, Poly<PowerBasis>)> = vec![("random".into(), Poly::random(&ctx, &mut rng(1))), ("small".into(), Poly::small(&ctx, 5, &mut rng(2)).unwrap())];
            list.push(("sum".into(), &list[0].1 + &list[1].1));
            list.push(("substituted".into(), list[0].1.substitute(&fhe_math::rq::SubstitutionExponent::new(&ctx, 3).unwrap()).unwrap()));
            let mut m = list[0].1.clone();
            m.multiply_inverse_power_of_x(3).unwrap();
            list.push(("multiplied by a power".into(), m));
            if qs.len() > 1 {
                let mut d = list[0].1.clone();
                d.switch_down().unwrap();
                list.push(("switched".into(), d));
            }
            {
                use fhe_math::rq::traits::TryConvertFrom;
                let mut a = ndarray::Array2::<u64>::zeros(ndarray::ShapeBuilder::f((qs.len(), n)));
                a.iter_mut().enumerate().for_each(|(i, x)| *x = (i % 90 + 3) as u64);
                list.push(("column-major".into(), Poly::try_convert_from(a, &ctx, false).unwrap()));
            }
            for (name, p) in &list {
                for vt in [false, true] {
                    su.case(&format!("n={n} {name} vt {vt}"), || {
                        let mut p = p.clone();
                        if vt {
                            p.allow_variable_time_computations(tvt());
                        }
                        let c = p.ctx().clone();
                        let mut a = p.clone();
                        a.zeroize();
                        let mut b = p.clone().into_ntt();
                        b.zeroize();
                        let mut d = p.clone().into_ntt_shoup();
                        d.zeroize();
                        if a != Poly::zero(&c) || b != Poly::zero(&c) || d != Poly::zero(&c) {
                            return Err("an erased polynomial is not the zero polynomial".into());
                        }
                        if a.coefficients().iter().chain(b.coefficients().iter()).chain(d.coefficients().iter()).any(|x| *x != 0) {
                            return Err("an erased polynomial keeps coefficients".into());
                        }
                        let (_, blocks) = recorded(|| {
                            let z = zeroize::Zeroizing::new(p.clone());
                            drop(z.clone());
                            let y = zeroize::Zeroizing::new(p.clone().into_ntt());
                            drop((z, y))
                        });
                        let shoup = zeroize::Zeroizing::new(p.clone().into_ntt_shoup());
                        let (_, more) = recorded(|| drop(shoup));
                        let blocks: Vec<_> = blocks.into_iter().chain(more).collect();
                        let mut s = Secrets::default();
                        s.poly("the polynomial", &c, &coeffs(&p));
                        s.check(&blocks).map(|k| k + 3)
                    });
                }
            }
        }
        for ps in sets(r.thorough) {
            su.case(&format!("{} key", ps.name), || {
                let mut k = ps.sk.clone();
                k.zeroize();
                if sk_coeffs(&k).iter().any(|x| *x != 0) || k != sk_from(&ps.par, &vec![0; ps.n]) {
                    return Err("an erased key is not zero".into());
                }
                su.outcome(0);
                Ok(1)
            });
        }
    });
}
