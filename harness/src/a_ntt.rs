//! A02: the NTT evaluates at odd powers of a primitive root, is invertible, and multiplies negacyclically.
use crate::core::*;
use crate::model::*;
use fhe_math::ntt::NttOperator;
use fhe_math::zq::Modulus;

/// All four entry points on one input; returns the forward transform after comparing them and the round trip.
fn run(op: &NttOperator, p: u64, a: &[u64]) -> Result<Vec<u64>, String> {
    let mut f = a.to_vec();
    op.forward(&mut f);
    let mut g = a.to_vec();
    unsafe { op.forward_vt(g.as_mut_ptr()) };
    if f != g {
        return Err(format!("forward {f:?} != forward_vt {g:?} on {a:?}"));
    }
    if f.iter().any(|x| *x >= p) {
        return Err(format!("forward output not reduced: {f:?} on {a:?}"));
    }
    let mut b = f.clone();
    op.backward(&mut b);
    if b != a {
        return Err(format!("backward(forward(a)) = {b:?} for a = {a:?}"));
    }
    let mut b = f.clone();
    unsafe { op.backward_vt(b.as_mut_ptr()) };
    if b != a {
        return Err(format!("backward_vt(forward(a)) = {b:?} for a = {a:?}"));
    }
    // the inverse is also exercised on a as a transformed vector (it is a bijection on reduced vectors)
    let mut b = a.to_vec();
    op.backward(&mut b);
    let mut c = a.to_vec();
    unsafe { op.backward_vt(c.as_mut_ptr()) };
    if b != c || b.iter().any(|x| *x >= p) {
        return Err(format!("backward {b:?} vs backward_vt {c:?} on {a:?}"));
    }
    op.forward(&mut b);
    if b != a {
        return Err(format!("forward(backward(a)) = {b:?} for a = {a:?}"));
    }
    Ok(f)
}

/// psi powers in output order, after checking that X is mapped to the odd powers of a primitive root.
fn points(op: &NttOperator, p: u64, n: usize) -> Result<Vec<u64>, String> {
    let mut x = vec![0u64; n];
    x[1] = 1;
    let f = run(op, p, &x)?;
    let psi = f[0];
    if powmod(psi, n as u64, p) != p - 1 {
        return Err(format!("forward(X)[0] = {psi} is not a primitive {}-th root", 2 * n));
    }
    for i in 0..n {
        if f[i] != powmod(psi, 2 * brv(i, n) as u64 + 1, p) {
            return Err(format!("output {i} of forward(X) is {} but psi^(2 brv(i)+1) = {}", f[i], powmod(psi, 2 * brv(i, n) as u64 + 1, p)));
        }
    }
    Ok(f)
}

fn eval(a: &[u64], pts: &[u64], p: u64) -> Vec<u64> {
    pts.iter().map(|x| a.iter().rev().fold(0u64, |acc, c| ((acc as u128 * *x as u128 + *c as u128) % p as u128) as u64)).collect()
}

pub fn primes_for(n: usize, thorough: bool) -> Vec<u64> {
    let m = 2 * n as u64;
    let mut v = vec![];
    // the smallest primes that admit a transform
    let mut x = m + 1;
    while v.len() < if thorough { 40 } else { 12 } {
        if is_prime64(x) {
            v.push(x);
        }
        x += m;
    }
    // extremes of every bit size
    for bits in (m.ilog2() + 2)..=62 {
        v.extend(ntt_primes(bits, m, 2));
        let lo = (1u64 << (bits - 1)) / m * m + 1;
        let mut y = lo;
        for _ in 0..400 {
            if y >> (bits - 1) == 1 && is_prime64(y) {
                v.push(y);
                break;
            }
            y += m;
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn a02(r: &Rep) {
    let t = r.thorough;
    r.assume("vectors handed to the transform are reduced and have exactly the transform size (documented precondition)");
    let top = if t { 1 << 16 } else { 1 << 13 };
    r.suite("creation", &format!("NttOperator::new for every modulus 2..={top} and every size 8..=4096: Some exactly for primes = 1 mod 2n"), |s| {
        let sizes: Vec<usize> = (3..=12).map(|k| 1 << k).collect();
        s.par(&sizes, |&n| {
            for p in 2..=top as u64 {
                at([n as u128, p as u128, 0, 0, 0, 0]);
                let m = Modulus::new(p).unwrap();
                let want = p % (2 * n as u64) == 1 && is_prime_naive(p);
                let got = NttOperator::new(&m, n).is_some();
                if want != got {
                    s.fail(&format!("n={n} p={p}"), &format!("creation gives {got}, expected {want}"));
                }
                if want {
                    s.outcome(p * n as u64);
                }
                if p % 256 == 0 {
                    s.cases(256);
                    s.states(256);
                    s.transitions(256);
                }
            }
        });
        // large moduli: primes = 1 mod 2n, primes not, composites = 1 mod 2n
        for n in [8usize, 16, 1024, 8192] {
            for bits in [20u32, 31, 32, 33, 50, 61, 62] {
                for k in 0..64u64 {
                    for p in [((1u64 << (bits - 1)) / (2 * n as u64) * 2 * n as u64 + 1).wrapping_add(2 * n as u64 * k), (1u64 << bits) - 1 - 2 * k] {
                        let Ok(m) = Modulus::new(p) else { continue };
                        let want = p % (2 * n as u64) == 1 && is_prime64(p);
                        let got = NttOperator::new(&m, n).is_some();
                        if want != got {
                            s.fail(&format!("n={n} p={p}"), &format!("creation gives {got}, expected {want}"));
                        }
                        s.cases(1);
                        s.states(1);
                        s.transitions(1);
                    }
                }
            }
        }
    });
    r.suite("n8-patterns", "n=8: all inputs in {0,1,(p-1)/2,p-1}^8 against evaluation at odd powers of psi, forward/backward, both timings, every admitted corner prime", |s| {
        let ps = primes_for(8, t);
        let ps: Vec<u64> = if t { ps } else { ps.iter().copied().enumerate().filter(|(i, _)| i % 8 == 0 || *i < 2 || *i + 3 > ps.len()).map(|x| x.1).collect() };
        s.par(&ps, |&p| {
            let m = Modulus::new(p).unwrap();
            let Some(op) = NttOperator::new(&m, 8) else {
                return s.fail(&format!("p={p}"), "no operator");
            };
            let pts = match points(&op, p, 8) {
                Ok(x) => x,
                Err(e) => return s.fail(&format!("p={p} X"), &e),
            };
            let al = [0, 1, (p - 1) / 2, p - 1];
            let mut oc = vec![];
            for c in 0..65536usize {
                let a: Vec<u64> = (0..8).map(|i| al[c >> (2 * i) & 3]).collect();
                at([p as u128, c as u128, 0, 0, 0, 0]);
                match run(&op, p, &a) {
                    Err(e) => s.fail(&format!("p={p} a={a:?}"), &e),
                    Ok(f) => {
                        let w = eval(&a, &pts, p);
                        if f != w {
                            s.fail(&format!("p={p} a={a:?}"), &format!("forward = {f:?}, evaluations = {w:?}"));
                        }
                        if c % 64 == 0 {
                            oc.push(h64(&f));
                        }
                    }
                }
                if s.stop() {
                    return;
                }
            }
            s.outcomes(&oc);
            s.cases(65536);
            s.states(65536);
            s.transitions(6 * 65536);
        });
    });
    if t {
        r.suite("n8-p17-exhaustive-pairs", "n=8, p=17: every vector with at most 4 nonzero coefficients", |s| {
            let m = Modulus::new(17).unwrap();
            let op = NttOperator::new(&m, 8).unwrap();
            let pts = points(&op, 17, 8).unwrap_or_default();
            let masks: Vec<u32> = (0..256u32).filter(|x| x.count_ones() <= 4).collect();
            s.par(&masks, |&mask| {
                let pos: Vec<usize> = (0..8).filter(|i| mask >> i & 1 == 1).collect();
                let tot = 16usize.pow(pos.len() as u32);
                for c in 0..tot {
                    let mut a = vec![0u64; 8];
                    let mut y = c;
                    for i in &pos {
                        a[*i] = 1 + (y % 16) as u64;
                        y /= 16;
                    }
                    match run(&op, 17, &a) {
                        Err(e) => s.fail(&format!("a={a:?}"), &e),
                        Ok(f) => {
                            if f != eval(&a, &pts, 17) {
                                s.fail(&format!("a={a:?}"), "forward differs from the evaluations");
                            }
                        }
                    }
                }
                s.cases(tot as u64);
                s.states(tot as u64);
                s.transitions(tot as u64 * 6);
            });
        });
    }
    let sizes: Vec<usize> = if t { (3..=12).map(|k| 1 << k).collect() } else { (3..=10).map(|k| 1 << k).collect() };
    r.suite("basis", &format!("sizes {sizes:?}: every basis vector times {{1,p-1}} and corner vectors against evaluation (linearity then fixes the map), corner primes of every bit size for n<=16, three primes beyond"), |s| {
        let mut items = vec![];
        for &n in &sizes {
            let ps = primes_for(n, t);
            let ps: Vec<u64> = if n <= 16 { ps } else if n <= 256 { [ps[0], ps[ps.len() / 2], ps[ps.len() - 1]].to_vec() } else { [ps[0], ps[ps.len() - 1]].to_vec() };
            items.extend(ps.into_iter().map(|p| (n, p)));
        }
        s.par(&items, |&(n, p)| {
            let m = Modulus::new(p).unwrap();
            let Some(op) = NttOperator::new(&m, n) else {
                return s.fail(&format!("n={n} p={p}"), "no operator");
            };
            let pts = match points(&op, p, n) {
                Ok(x) => x,
                Err(e) => return s.fail(&format!("n={n} p={p} X"), &e),
            };
            // powers of each point, advanced with j
            let mut pw = vec![1u64; n];
            for j in 0..n {
                at([n as u128, p as u128, j as u128, 0, 0, 0]);
                for c in [1u64, p - 1] {
                    let mut a = vec![0u64; n];
                    a[j] = c;
                    match run(&op, p, &a) {
                        Err(e) => s.fail(&format!("n={n} p={p} j={j} c={c}"), &e),
                        Ok(f) => {
                            for i in 0..n {
                                let w = if c == 1 { pw[i] } else { (p - pw[i]) % p };
                                if f[i] != w {
                                    s.fail(&format!("n={n} p={p} j={j} c={c}"), &format!("output {i} is {} expected {w}", f[i]));
                                    break;
                                }
                            }
                        }
                    }
                }
                for i in 0..n {
                    pw[i] = mulmod(pw[i], pts[i], p);
                }
                if s.stop() {
                    return;
                }
            }
            // corner vectors: constant, alternating, half, ramps with all extreme values
            let mut l = Lcg(n as u64 ^ p);
            let mut vs: Vec<Vec<u64>> = vec![vec![p - 1; n], vec![1; n], (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(), (0..n).map(|i| if i < n / 2 { p - 1 } else { 1 }).collect()];
            for _ in 0..6 {
                vs.push((0..n).map(|_| l.below(p)).collect());
            }
            for a in &vs {
                match run(&op, p, a) {
                    Err(e) => s.fail(&format!("n={n} p={p} corner"), &e),
                    Ok(f) => {
                        if n <= 512 && f != eval(a, &pts, p) {
                            s.fail(&format!("n={n} p={p} corner"), "forward differs from the evaluations");
                        }
                        s.outcome(h64(&f));
                    }
                }
            }
            let k = (2 * n + vs.len()) as u64;
            s.cases(k);
            s.states(k);
            s.transitions(6 * k);
        });
    });
    let tops: Vec<usize> = if t { (11..=19).map(|k| 1 << k).collect() } else { (11..=17).map(|k| 1 << k).collect() };
    r.suite("large-sizes", &format!("sizes {tops:?}: monomials X^j for j around every power of two and the ends, dense corner vectors evaluated at 48 outputs spread over the whole range; smallest, middle and largest admitted prime"), |s| {
        let mut items = vec![];
        for &n in tops.iter().rev() {
            let ps = primes_for(n, false);
            for k in if n > 1 << 14 && !t { vec![0, ps.len() - 1] } else { vec![0, ps.len() / 2, ps.len() - 1] } {
                items.push((n, ps[k]));
            }
        }
        s.par(&items, |&(n, p)| {
            let m = Modulus::new(p).unwrap();
            let Some(op) = NttOperator::new(&m, n) else {
                return s.fail(&format!("n={n} p={p}"), "no operator");
            };
            let pts = match points(&op, p, n) {
                Ok(x) => x,
                Err(e) => return s.fail(&format!("n={n} p={p} X"), &e),
            };
            let mut js: Vec<usize> = (1..n.ilog2()).flat_map(|k| [1usize << k, (1 << k) + 1]).chain([0, 3, 7, n - 1, n - 2, n / 2 - 1]).collect();
            js.sort();
            js.dedup();
            if n > 1 << 13 && !t {
                js.retain(|j| j.count_ones() == 1 && j.ilog2() % 3 == 1 || *j >= n - 1 || *j == 3);
            }
            let mut k = 0u64;
            for j in js {
                at([n as u128, p as u128, j as u128, 0, 0, 0]);
                let mut a = vec![0u64; n];
                a[j] = p - 1;
                match run(&op, p, &a) {
                    Err(e) => s.fail(&format!("n={n} p={p} j={j}"), &e[..e.len().min(300)]),
                    Ok(f) => {
                        if let Some(i) = (0..n).find(|i| f[*i] != (p - powmod(pts[*i], j as u64, p)) % p) {
                            s.fail(&format!("n={n} p={p} j={j}"), &format!("output {i} of the transform of -X^{j} is {} instead of {}", f[i], (p - powmod(pts[i], j as u64, p)) % p));
                        }
                    }
                }
                k += 1;
            }
            let mut l = Lcg(n as u64 ^ p);
            let idx: Vec<usize> = (0..16).chain(n / 2 - 8..n / 2 + 8).chain((0..16).map(|i| n - 1 - i * i * n / 300)).collect();
            for a in [vec![p - 1; n], (0..n).map(|i| if i < n / 2 { p - 1 } else { 1 }).collect(), (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(), (0..n).map(|_| l.below(p)).collect()] {
                match run(&op, p, &a) {
                    Err(e) => s.fail(&format!("n={n} p={p} dense"), &e[..e.len().min(300)]),
                    Ok(f) => {
                        let sub: Vec<u64> = idx.iter().map(|i| pts[*i]).collect();
                        if let Some(i) = eval(&a, &sub, p).iter().zip(&idx).position(|(v, i)| *v != f[*i]) {
                            s.fail(&format!("n={n} p={p} dense"), &format!("output {} of a dense transform is not the evaluation", idx[i]));
                        }
                        s.outcome(h64(&f));
                    }
                }
                k += 1;
            }
            s.cases(k);
            s.states(k);
            s.transitions(6 * k);
        });
    });
    r.suite("convolution", "pointwise products are negacyclic convolutions: all pairs of monomials c*x^i, c in {1,p-1} for n in {8,16,32}, and dense corner pairs", |s| {
        let mut items = vec![];
        for n in [8usize, 16, 32] {
            let ps = primes_for(n, false);
            for k in [0, 3, ps.len() / 2, ps.len() - 2, ps.len() - 1] {
                items.push((n, ps[k]));
            }
        }
        s.par(&items, |&(n, p)| {
            let m = Modulus::new(p).unwrap();
            let op = NttOperator::new(&m, n).unwrap();
            let mut vs: Vec<Vec<u64>> = vec![];
            for i in 0..n {
                for c in [1, p - 1] {
                    let mut a = vec![0; n];
                    a[i] = c;
                    vs.push(a);
                }
            }
            let mut l = Lcg(p);
            vs.push(vec![p - 1; n]);
            for _ in 0..4 {
                vs.push((0..n).map(|_| l.below(p)).collect());
            }
            let tr: Vec<Vec<u64>> = vs.iter().map(|a| { let mut b = a.clone(); op.forward(&mut b); b }).collect();
            for i in 0..vs.len() {
                for j in 0..vs.len() {
                    let mut c: Vec<u64> = tr[i].iter().zip(&tr[j]).map(|(x, y)| mulmod(*x, *y, p)).collect();
                    op.backward(&mut c);
                    if c != negmul(&vs[i], &vs[j], p) {
                        s.fail(&format!("n={n} p={p} i={i} j={j}"), &format!("{:?} * {:?} gave {c:?}", vs[i], vs[j]));
                    }
                }
            }
            let k = (vs.len() * vs.len()) as u64;
            s.cases(k);
            s.states(k);
            s.transitions(k);
        });
    });
}
