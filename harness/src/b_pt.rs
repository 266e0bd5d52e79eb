//! B03 plaintext encoding and decoding.
use crate::b_core::*;
use crate::core::*;
use crate::model::*;
use fhe::bfv::{BfvParameters, Encoding, Plaintext, PlaintextVec};
use fhe_traits::{FheDecoder, FheDecrypter, FheEncoder, FheEncoderVariableTime};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use std::sync::Arc;

/// Parameters with everything the model needs to know about encodings.
struct Pp {
    ps: Ps,
    /// values of the slots of x^j, once per parameter set
    simd: bool,
}
fn mk(n: usize, t: BigUint, m: Mods) -> Pp {
    let ps = Ps::new(&format!("n{n}-t{t}"), n, t, m, 3, Secret::Random(5));
    let simd = ps.t.to_u64().is_some_and(|t| is_prime64(t) && t % (2 * n as u64) == 1);
    Pp { ps, simd }
}
fn shapes(thorough: bool) -> Vec<Pp> {
    let q = |b: u32, n: usize, k: usize| ntt_primes(b, 2 * n as u64, k);
    let mut v = vec![
        mk(8, bu(2), Mods::Sizes(&[30, 30, 30])),
        mk(8, bu(3), Mods::List(&[17, 97])),
        mk(8, bu(4), Mods::Sizes(&[20, 20])),
        mk(8, bu(17), Mods::Sizes(&[62, 62])),
        mk(8, bu(16), Mods::List(&[17, 113, q(62, 8, 1)[0]])),
        mk(16, bu(97), Mods::Sizes(&[40, 50, 30])),
        mk(8, bu(113), Mods::List(&[97, q(62, 8, 1)[0], q(30, 8, 1)[0]])),
        mk(8, bu(q(40, 8, 1)[0]), Mods::Sizes(&[62, 62])),
        mk(8, bu(q(62, 8, 3)[2]), Mods::Sizes(&[62, 62])),
        mk(8, bu((1 << 62) - 1), Mods::Sizes(&[62, 62])),
        mk(8, bu(q(61, 8, 1)[0]), Mods::List(&[q(30, 8, 1)[0], q(62, 8, 1)[0]])),
        mk(8, (BigUint::one() << 64usize) + 1u32, Mods::Sizes(&[62, 62])),
        mk(8, (BigUint::one() << 64usize) + 2u32, Mods::Sizes(&[62, 62, 20])),
        mk(8, (BigUint::one() << 70usize) + 25u32, Mods::Sizes(&[62, 62, 62])),
        mk(8, (BigUint::one() << 123usize) + 5u32, Mods::Sizes(&[62, 62, 62])),
        mk(32, bu(193), Mods::Sizes(&[30])),
        mk(64, bu(257), Mods::Sizes(&[50, 50])),
    ];
    if thorough {
        v.push(mk(1024, bu(12289), Mods::Sizes(&[60, 60])));
        v.push(mk(4096, bu(40961), Mods::Sizes(&[50, 50])));
    } else {
        v.push(mk(1024, bu(12289), Mods::Sizes(&[60])));
    }
    v
}
fn corner_values(p: &Ps) -> Vec<BigUint> {
    let t = &p.t;
    let mut v: Vec<BigUint> = vec![bu(0), bu(1), bu(2), t - 1u32, t.clone(), t + 1u32, t / 2u32, t / 2u32 + 1u32, (t + 1u32) / 2u32, t * 2u32, t * 3u32 + 1u32, bu(u64::MAX), bu(1 << 63), bu((1 << 63) - 1), bu(u64::MAX) + 1u32, bu(u64::MAX) * bu(u64::MAX), p.qq(0), p.qq(0) - 1u32, p.qq(0) * t + 5u32];
    for q in &p.q {
        v.push(bu(*q));
        v.push(bu(*q) + 1u32);
        v.push(bu(*q) - 1u32);
    }
    if *t > bu(2) {
        v.push(t / 2u32 - 1u32);
    }
    v.sort();
    v.dedup();
    v
}
fn enc(simd: bool, l: usize) -> Encoding {
    if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) }
}
fn centred(x: &BigUint, t: &BigUint) -> BigInt {
    // the library's convention: values from floor(t/2) on are negative
    if *x >= t / 2u32 { bi(x) - bi(t) } else { bi(x) }
}

/// Decode in every output type, with and without naming the encoding, and compare with the expected residues.
fn decodes(p: &Ps, pt: &Plaintext, e: &Encoding, want: &Msg, what: &str) -> Result<(), String> {
    let t = &p.t;
    for named in [true, false] {
        let o = || if named { Some(e.clone()) } else { None };
        let b = Vec::<BigUint>::try_decode(pt, o()).map_err(|x| format!("{what}: decoding failed: {x}"))?;
        if b != *want {
            return Err(format!("{what}: decodes to {b:?}, expected {want:?}"));
        }
        let u = Vec::<u64>::try_decode(pt, o());
        match want.iter().map(|x| x.to_u64()).collect::<Option<Vec<_>>>() {
            Some(w) => {
                let u = u.map_err(|x| format!("{what}: u64 decoding failed: {x}"))?;
                if u != w {
                    return Err(format!("{what}: decodes to {u:?} (u64), expected {w:?}"));
                }
            }
            None => {
                if let Ok(u) = u {
                    return Err(format!("{what}: values above 64 bits decoded as {u:?}"));
                }
            }
        }
        let s = Vec::<i64>::try_decode(pt, o());
        match want.iter().map(|x| centred(x, t).to_i64()).collect::<Option<Vec<_>>>() {
            Some(w) => {
                let s = s.map_err(|x| format!("{what}: i64 decoding failed: {x}"))?;
                if s != w {
                    return Err(format!("{what}: decodes to {s:?} (i64), expected {w:?}"));
                }
            }
            None => {
                if let Ok(s) = s {
                    return Err(format!("{what}: values outside i64 decoded as {s:?}"));
                }
            }
        }
    }
    Ok(())
}

/// Encode a vector in every input type that can hold it and check every way back.
fn round(pp: &Pp, v: &[BigUint], simd: bool, l: usize) -> Result<u64, String> {
    let p = &pp.ps;
    let e = enc(simd, l);
    let avail = !simd || pp.simd;
    let mut want: Msg = v.iter().map(|x| x % &p.t).collect();
    want.resize(p.n, bu(0));
    let mut first: Option<Plaintext> = None;
    let mut n = 0;
    let mut check = |x: fhe::Result<Plaintext>, what: &str| -> Result<(), String> {
        n += 1;
        match x {
            Err(er) => if avail { Err(format!("{what}: encoding failed: {er}")) } else { Ok(()) },
            Ok(pt) => {
                if !avail {
                    return Err(format!("{what}: unavailable encoding accepted"));
                }
                if pt.level() != l {
                    return Err(format!("{what}: level {} instead of {l}", pt.level()));
                }
                if p.n <= 64 || first.is_none() {
                    decodes(p, &pt, &e, &want, what)?;
                }
                // the same values give the same plaintext whatever the input type
                match &first {
                    None => first = Some(pt),
                    Some(f) => if *f != pt {
                        return Err(format!("{what}: a different plaintext for the same values"));
                    },
                }
                Ok(())
            }
        }
    };
    check(Plaintext::try_encode(v, e.clone(), &p.par), "BigUint")?;
    check(Plaintext::try_encode(&v.to_vec(), e.clone(), &p.par), "&Vec<BigUint>")?;
    if let Some(u) = v.iter().map(|x| x.to_u64()).collect::<Option<Vec<_>>>() {
        check(Plaintext::try_encode(u.as_slice(), e.clone(), &p.par), "u64")?;
        check(Plaintext::try_encode(&u, e.clone(), &p.par), "&Vec<u64>")?;
        check(Plaintext::try_encode_vt(u.as_slice(), e.clone(), &p.par, tvt()), "u64 variable time")?;
        if u.len() == 8 {
            let a: [u64; 8] = u.clone().try_into().unwrap();
            check(Plaintext::try_encode(&a, e.clone(), &p.par), "&[u64; 8]")?;
        }
        if u.len() == 3 {
            let a: [u64; 3] = u.clone().try_into().unwrap();
            check(Plaintext::try_encode(&a, e.clone(), &p.par), "&[u64; 3]")?;
        }
        let x = PlaintextVec::try_encode(u.as_slice(), e.clone(), &p.par);
        check(x.map(|x| if x.len() == 1 { x[0].clone() } else { panic!("{} plaintexts", x.len()) }), "PlaintextVec u64")?;
    }
    // as signed values: the residues' centred representatives and the same values shifted by multiples of t
    for shift in [0i32, -1, 1] {
        let s: Option<Vec<i64>> = v.iter().map(|x| (centred(&(x % &p.t), &p.t) + p.tb() * shift).to_i64()).collect();
        if let Some(s) = s {
            check(Plaintext::try_encode(s.as_slice(), e.clone(), &p.par), &format!("i64 shift {shift}"))?;
        }
    }
    let x = PlaintextVec::try_encode(v, e.clone(), &p.par);
    check(x.map(|x| if x.len() == 1 { x[0].clone() } else { panic!("{} plaintexts", x.len()) }), "PlaintextVec BigUint")?;
    Ok(n)
}

pub fn b03(r: &Rep) {
    let th = r.thorough;
    let sh = shapes(th);
    for pp in &sh {
        let p = &pp.ps;
        let name = p.name.clone();
        let levels: Vec<usize> = (0..p.levels()).filter(|l| p.qq(*l) > p.t).collect();
        r.suite(&format!("unit-vectors-{name}"), &format!("every length 0..=N x every position of one corner value (the rest 0 or t-1), all levels, both encodings, all input and output types; moduli {:?}", p.q), |su| {
            let cv = corner_values(p);
            let mut items = vec![];
            let lens: Vec<usize> = if p.n <= 16 { (0..=p.n).collect() } else { vec![0, 1, p.n / 2 - 1, p.n / 2, p.n / 2 + 1, p.n - 1, p.n] };
            for &l in &levels {
                for simd in [false, true] {
                    for &len in &lens {
                        let pos: Vec<usize> = if len == 0 { vec![0] } else if p.n <= 16 { (0..len).collect() } else { vec![0, len / 2, len - 1] };
                        for &k in &pos {
                            if p.n > 16 || len == p.n || k + 1 == len || th {
                                items.push((l, simd, len, k));
                            }
                        }
                    }
                }
            }
            su.par(&items, |&(l, simd, len, k)| {
                for (ci, c) in cv.iter().enumerate() {
                    if p.n > 64 && ci % 6 != 0 {
                        continue;
                    }
                    for rest in [bu(0), &p.t - 1u32] {
                        su.case(&format!("level {l} simd {simd} length {len} position {k} value {c} rest {rest}"), || {
                            let mut v = vec![rest.clone(); len];
                            if len > 0 {
                                v[k] = c.clone();
                            }
                            su.outcome(h64(&(l, simd, len, k, ci)));
                            round(pp, &v, simd, l)
                        });
                    }
                }
            });
        });
        r.suite(&format!("errors-{name}"), "too many values, unavailable levels, mismatched and missing encodings, in every input and output type", |su| {
            let n = p.n;
            for l in 0..p.levels() + 3 {
                for simd in [false, true] {
                    for len in [n, n + 1, n + 2, 2 * n, 2 * n + 1] {
                        let e = enc(simd, l);
                        let bad = len > n || l >= p.levels() || (simd && !pp.simd);
                        let u = vec![1u64; len];
                        let s = vec![-1i64; len];
                        let b = vec![bu(1); len];
                        su.case(&format!("level {l} simd {simd} length {len}"), || {
                            for (w, x) in [
                                ("u64", Plaintext::try_encode(u.as_slice(), e.clone(), &p.par)),
                                ("u64 variable time", Plaintext::try_encode_vt(u.as_slice(), e.clone(), &p.par, tvt())),
                                ("i64", Plaintext::try_encode(s.as_slice(), e.clone(), &p.par)),
                                ("BigUint", Plaintext::try_encode(b.as_slice(), e.clone(), &p.par)),
                            ] {
                                su.outcome(h64(&(l, simd, len, w)));
                                if x.is_ok() == bad {
                                    return Err(format!("{w}: success is {}", x.is_ok()));
                                }
                            }
                            Ok(4)
                        });
                    }
                }
                su.case(&format!("zero at level {l}"), || {
                    for simd in [false, true] {
                        let z = Plaintext::zero(enc(simd, l), &p.par);
                        if z.is_ok() != (l < p.levels()) {
                            return Err(format!("Plaintext::zero success is {}", z.is_ok()));
                        }
                        if let Ok(z) = z {
                            if z.level() != l || (levels.contains(&l) && (!simd || pp.simd) && Vec::<BigUint>::try_decode(&z, None).map_err(|e| e.to_string())? != p.zero_msg()) {
                                return Err("Plaintext::zero is not zero".into());
                            }
                        }
                    }
                    Ok(2)
                });
            }
            for &l in &levels {
                for simd in [false, true] {
                    if simd && !pp.simd {
                        continue;
                    }
                    let pt = Plaintext::try_encode(&[1u64, 2, 3], enc(simd, l), &p.par).unwrap();
                    for l2 in 0..p.levels() + 1 {
                        for s2 in [false, true] {
                            su.case(&format!("encoded simd {simd} level {l}, decoded simd {s2} level {l2}"), || {
                                let same = simd == s2 && l == l2;
                                let e = enc(s2, l2);
                                let ok = [Vec::<u64>::try_decode(&pt, e.clone()).is_ok(), Vec::<i64>::try_decode(&pt, e.clone()).is_ok(), Vec::<BigUint>::try_decode(&pt, e.clone()).is_ok()];
                                if ok != [same; 3] {
                                    return Err(format!("decoding success is {ok:?}"));
                                }
                                Ok(3)
                            });
                        }
                    }
                    // decryption forgets the encoding
                    su.case(&format!("decrypted, simd {simd} level {l}"), || {
                        let ct = p.sk_enc(&pt, 1).map_err(|e| e.to_string())?;
                        let d = p.sk.try_decrypt(&ct).map_err(|e| e.to_string())?;
                        if Vec::<u64>::try_decode(&d, None).is_ok() || Vec::<i64>::try_decode(&d, None).is_ok() || Vec::<BigUint>::try_decode(&d, None).is_ok() {
                            return Err("decoded without an encoding".into());
                        }
                        if p.ok(&p.w_sk(), l) {
                            let mut w = p.msg(&[1, 2, 3]);
                            w.resize(n, bu(0));
                            let g = Vec::<BigUint>::try_decode(&d, enc(simd, l)).map_err(|e| e.to_string())?;
                            if g != w {
                                return Err(format!("decrypts to {g:?}"));
                            }
                        }
                        let o = Vec::<BigUint>::try_decode(&d, enc(true, l));
                        if o.is_ok() != pp.simd {
                            return Err(format!("SIMD decoding success is {}", o.is_ok()));
                        }
                        if !pp.simd && (Vec::<u64>::try_decode(&d, enc(true, l)).is_ok() || Vec::<i64>::try_decode(&d, enc(true, l)).is_ok()) {
                            return Err("unavailable SIMD decoding succeeded".into());
                        }
                        Ok(4)
                    });
                }
            }
        });
        r.suite(&format!("batches-{name}"), "batched plaintexts of every length 0..=3N+1 (or around each multiple of N), every level", |su| {
            let n = p.n;
            let lens: Vec<usize> = if n <= 16 { (0..=3 * n + 1).collect() } else { vec![0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n] };
            let mut items = vec![];
            for &l in &levels {
                for simd in [false, true] {
                    for &len in &lens {
                        items.push((l, simd, len));
                    }
                }
            }
            su.par(&items, |&(l, simd, len)| {
                su.case(&format!("level {l} simd {simd} length {len}"), || {
                    let e = enc(simd, l);
                    let mut g = Lcg(len as u64);
                    let b: Vec<BigUint> = (0..len).map(|_| ((bu(g.next()) << 64usize) + bu(g.next())) % &p.t).collect();
                    let mut outs = vec![("BigUint", PlaintextVec::try_encode(b.as_slice(), e.clone(), &p.par))];
                    if let Some(u) = b.iter().map(|x| x.to_u64()).collect::<Option<Vec<_>>>() {
                        outs.push(("u64", PlaintextVec::try_encode(u.as_slice(), e.clone(), &p.par)));
                        outs.push(("u64 vt", PlaintextVec::try_encode_vt(u.as_slice(), e.clone(), &p.par, tvt())));
                    }
                    for (w, x) in outs {
                        if simd && !pp.simd {
                            if x.is_ok() {
                                return Err(format!("{w}: unavailable encoding accepted"));
                            }
                            continue;
                        }
                        let x = x.map_err(|e| format!("{w}: {e}"))?;
                        if x.len() != len.div_ceil(n).max(1) {
                            return Err(format!("{w}: {} plaintexts for {len} values", x.len()));
                        }
                        for (i, pt) in x.iter().enumerate() {
                            let mut want = b[(i * n).min(len)..((i + 1) * n).min(len)].to_vec();
                            want.resize(n, bu(0));
                            let d = Vec::<BigUint>::try_decode(pt, e.clone()).map_err(|e| e.to_string())?;
                            if d != want || pt.level() != l {
                                return Err(format!("{w}: plaintext {i} of {len} values decodes to {d:?}, expected {want:?}"));
                            }
                        }
                    }
                    su.outcome(h64(&(l, simd, len)));
                    Ok(3)
                });
            });
        });
        if pp.simd && p.n <= 64 {
            r.suite(&format!("slots-{name}"), "slotwise semantics: all pairs of unit vectors multiply slotwise, the automorphisms 3 and -1 act as the documented rotations, coefficients are linear in the slots", |su| {
                let n = p.n;
                let l = levels[levels.len() - 1];
                let e = enc(true, l);
                let units: Vec<Msg> = (0..n)
                    .map(|i| {
                        let mut u = vec![0u64; n];
                        u[i] = 1;
                        pt_coeffs(p, &Plaintext::try_encode(u.as_slice(), e.clone(), &p.par).unwrap()).unwrap()
                    })
                    .collect();
                su.par_n(n, |i| {
                    for j in 0..n {
                        su.case(&format!("slots {i} {j}"), || {
                            let pr = p.pmul(&units[i], &units[j]);
                            if pr != if i == j { units[i].clone() } else { p.zero_msg() } {
                                return Err(format!("slots {i} and {j} are not independent"));
                            }
                            Ok(1)
                        });
                    }
                    su.case(&format!("automorphisms of slot {i}"), || {
                        let h = n / 2;
                        // x -> x^3 rotates both rows left by one, x -> x^-1 swaps the rows
                        let rot = if i < h { (i + h - 1) % h } else { h + (i - h + h - 1) % h };
                        if p.psub_exp(&units[i], 3) != units[rot] {
                            return Err("x -> x^3 is not the column rotation".into());
                        }
                        if p.psub_exp(&units[i], 2 * n - 1) != units[(i + h) % n] {
                            return Err("x -> x^-1 is not the row rotation".into());
                        }
                        su.outcome(i as u64);
                        Ok(2)
                    });
                });
                // linearity over a spread of vectors
                for (k, m) in messages(p, 20).iter().enumerate() {
                    su.case(&format!("linear {k}"), || {
                        let c = pt_coeffs(p, &Plaintext::try_encode(m.as_slice(), e.clone(), &p.par).map_err(|x| x.to_string())?)?;
                        let mut s = p.zero_msg();
                        for (x, u) in m.iter().zip(&units) {
                            for j in 0..n {
                                s[j] = (&s[j] + x * &u[j]) % &p.t;
                            }
                        }
                        if s != c {
                            return Err("the encoding is not linear".into());
                        }
                        Ok(1)
                    });
                }
            });
        }
    }
    // the largest degrees: positions, lengths, levels, and what the slots mean
    r.suite("largest", "degrees 2048..=65536 x plaintext moduli {786433 (with slots), 2^21+9, 2^70+25} x levels x encodings x lengths {0, 1, N/2, N-1, N} of dense and one-hot vectors in every input and output type; slot products, rotations and refusals; two batches", |su| {
        let mut items = vec![];
        for n in [65536usize, 32768, 16384, 8192, 4096, 2048] {
            for (i, t) in [bu(786433), bu((1 << 21) + 9), (BigUint::one() << 70usize) + 25u32].into_iter().enumerate() {
                let pp = Arc::new(mk(n, t, Mods::Sizes(&[62, 41, 62])));
                for l in (0..3).filter(|l| pp.ps.qq(*l) > pp.ps.t) {
                    for simd in [false, true] {
                        items.push((pp.clone(), i, l, simd));
                    }
                }
            }
        }
        su.par(&items, |(pp, i, l, simd)| {
            let (p, n, l, simd) = (&pp.ps, pp.ps.n, *l, *simd);
            let e = enc(simd, l);
            let dense = |seed: u64, len: usize| -> Vec<BigUint> {
                let mut g = Lcg(seed);
                (0..len).map(|_| ((bu(g.next()) << 64usize) + bu(g.next())) % &p.t).collect()
            };
            for len in [0, 1, n / 2, n - 1, n] {
                if simd && !pp.simd && len != n {
                    continue;
                }
                su.case(&format!("{} level {l} simd {simd} length {len}", p.name), || {
                    su.outcome(h64(&(n, i, l, simd, len)));
                    round(pp, &dense(len as u64, len), simd, l)
                });
            }
            if simd && !pp.simd {
                return;
            }
            for k in [0, 1, n / 2 - 1, n / 2, n - 2, n - 1] {
                su.case(&format!("{} level {l} simd {simd} one-hot {k}", p.name), || {
                    let mut v = p.zero_msg();
                    v[k] = &p.t - 1u32;
                    let pt = Plaintext::try_encode(v.as_slice(), e.clone(), &p.par).map_err(|x| x.to_string())?;
                    if Vec::<BigUint>::try_decode(&pt, e.clone()).map_err(|x| x.to_string())? != v {
                        return Err("does not decode to itself".into());
                    }
                    let c = pt_coeffs(p, &pt)?;
                    if !simd {
                        return if c == v { Ok(1) } else { Err("not the coefficient vector".into()) };
                    }
                    let h = n / 2;
                    for (exp, to) in [(3, if k < h { (k + h - 1) % h } else { h + (k - 1) % h }), (2 * n - 1, (k + h) % n)] {
                        let to = if exp == 3 && k == h { n - 1 } else { to };
                        let mut w = p.zero_msg();
                        w[to] = &p.t - 1u32;
                        let w = Plaintext::try_encode(w.as_slice(), e.clone(), &p.par).map_err(|x| x.to_string())?;
                        if p.psub_exp(&c, exp) != pt_coeffs(p, &w)? {
                            return Err(format!("x -> x^{exp} does not move the slot to {to}"));
                        }
                    }
                    Ok(3)
                });
            }
            if simd {
                su.case(&format!("{} level {l} slot products", p.name), || {
                    let (a, b) = (dense(1, n), dense(2, n));
                    let f = |v: &Vec<BigUint>| Plaintext::try_encode(v.as_slice(), e.clone(), &p.par).map_err(|x| x.to_string()).and_then(|x| pt_coeffs(p, &x));
                    let w: Vec<BigUint> = a.iter().zip(&b).map(|(x, y)| x * y % &p.t).collect();
                    if p.pmul(&f(&a)?, &f(&b)?) != f(&w)? {
                        return Err("slots do not multiply separately".into());
                    }
                    Ok(1)
                });
            }
            su.case(&format!("{} level {l} simd {simd} batches and refusals", p.name), || {
                let v = dense(3, n + 1);
                if Plaintext::try_encode(v.as_slice(), e.clone(), &p.par).is_ok() {
                    return Err("N+1 values accepted".into());
                }
                let x = PlaintextVec::try_encode(v.as_slice(), e.clone(), &p.par).map_err(|x| x.to_string())?;
                let d: Vec<Vec<BigUint>> = x.iter().map(|x| Vec::<BigUint>::try_decode(x, e.clone()).map_err(|x| x.to_string())).collect::<Result<_, _>>()?;
                let mut last = p.zero_msg();
                last[0] = v[n].clone();
                if d.len() != 2 || d[0] != v[..n] || d[1] != last {
                    return Err("batches do not decode to the values".into());
                }
                Ok(2)
            });
        });
    });
    // complete spaces
    for (t, n, m) in [(2u64, 8usize, vec![17u64, 97]), (3, 8, vec![97])] {
        let pp = mk(n, bu(t), Mods::List(&m));
        r.suite(&format!("all-vectors-t{t}"), "every vector of every length over Z_t (and t itself as a value), every level", |su| {
            for len in 0..=n {
                let k = if len <= 5 { t + 1 } else { t };
                let total = (k as usize).pow(len as u32);
                su.par_n(total, |x| {
                    let mut y = x as u64;
                    let v: Vec<BigUint> = (0..len).map(|_| { let d = y % k; y /= k; bu(d) }).collect();
                    for l in (0..m.len()).filter(|l| pp.ps.qq(*l) > pp.ps.t) {
                        su.case(&format!("{v:?} level {l}"), || { su.outcome(h64(&(len, x))); round(&pp, &v, false, l) });
                    }
                });
            }
        });
    }
    // signed inputs: every value of a word-sized window around 0 and the extremes
    r.suite("signed", "every i64 in -600..=600 and around the extremes, for small, word-sized and big plaintext moduli", |su| {
        let mut vals: Vec<i64> = (-600..=600).collect();
        for d in 0..4 {
            vals.extend([i64::MIN + d, i64::MAX - d, (1 << 62) + d - 2, -(1 << 62) + d - 2, (1 << 32) + d, -(1 << 32) + d]);
        }
        let sh: Vec<&Pp> = sh.iter().filter(|p| p.ps.n == 8).collect();
        su.par(&sh, |pp| {
            let p = &pp.ps;
            for l in (0..p.levels()).filter(|l| p.qq(*l) > p.t) {
                for simd in [false, true] {
                    if simd && !pp.simd {
                        continue;
                    }
                    for ch in vals.chunks(p.n) {
                        su.case(&format!("{} level {l} simd {simd} {ch:?}", p.name), || {
                            let e = enc(simd, l);
                            let pt = Plaintext::try_encode(ch, e.clone(), &p.par).map_err(|x| x.to_string())?;
                            let mut want: Msg = ch.iter().map(|x| modp(&BigInt::from(*x), &p.t)).collect();
                            want.resize(p.n, BigUint::zero());
                            su.outcome(h64(&(&p.name, l, simd, ch)));
                            decodes(p, &pt, &e, &want, "i64").map(|_| 6)
                        });
                    }
                }
            }
        });
    });
    let _ = |x: Arc<BfvParameters>| x;
}
