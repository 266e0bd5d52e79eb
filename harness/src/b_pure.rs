//! B19: results are functions of the arguments. Every word over a pool of operations on shared objects runs on
//! freshly made objects; each operation must give what it gives alone, in a process of its own.
use crate::b_core::*;
use crate::core::*;
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe::proto::bfv as proto;
use fhe_math::rns::{RnsContext, ScalingFactor};
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, SubstitutionExponent, dot_product};
use fhe_math::zq::Modulus;
use fhe_traits::*;
use num_bigint::BigUint;
use prost::Message;
use std::collections::HashMap;
use std::sync::{Arc, mpsc};

type Res = Result<Vec<u8>, String>;

/// The worlds differ from the first in one respect each.
pub const WORLDS: [&str; 7] = ["base", "other plaintext modulus", "other degree", "moduli in another order", "other keys", "fewer moduli", "other variance"];

pub struct World {
    par: Arc<BfvParameters>,
    t: u64,
    sk: SecretKey,
    sk2: SecretKey,
    pk: PublicKey,
    /// by level
    rk: Vec<RelinearizationKey>,
    ek: Vec<EvaluationKey>,
    rg: Vec<RGSWCiphertext>,
    mu: Vec<[Multiplicator; 2]>,
    /// by level: x; x with another first part; x with another second part; y
    ct: Vec<Vec<Ciphertext>>,
    /// three parts: z; z with another part, for each part
    ct3: Vec<Vec<Ciphertext>>,
    pt: Vec<Vec<Plaintext>>,
    crp: Vec<CommonRandomPoly>,
    up: Scaler,
    down: Switcher,
    sub: Vec<SubstitutionExponent>,
    rns: RnsContext,
    poly: Vec<Poly<PowerBasis>>,
    modulus: Modulus,
    vals: Vec<Vec<u64>>,
}

/// the same polynomial but for the last coefficient modulo the last prime
fn twin(p: &Poly<Ntt>) -> Poly<Ntt> {
    let mut c: Vec<u64> = p.coefficients().iter().copied().collect();
    let q = p.ctx().moduli();
    let k = c.len() - 1;
    c[k] = (c[k] + 1) % q[q.len() - 1];
    use fhe_math::rq::traits::TryConvertFrom;
    Poly::<Ntt>::try_convert_from(c, p.ctx(), false).unwrap()
}

impl World {
    pub fn new(w: usize) -> World {
        // friendly to degree 32 and 64
        let q = crate::model::ntt_primes(50, 128, 3);
        let q = match w {
            3 => vec![q[1], q[0], q[2]],
            5 => vec![q[0], q[1]],
            _ => q,
        };
        let n = if w == 2 { 32 } else { 16 };
        let t = if w == 1 { 769 } else { 193 };
        let var = if w == 6 { 5 } else { 3 };
        let par = mk_par(n, &bu(t), &Mods::List(&q), var).unwrap();
        let k = if w == 4 { 500 } else { 0 };
        let sk = SecretKey::random(&par, &mut rng(k + 1));
        let sk2 = SecretKey::random(&par, &mut rng(k + 2));
        let levels = q.len();
        let at = |l: usize| par.context_at_level(l).unwrap();
        let poly = |l: usize, s: u64| Poly::<Ntt>::random(at(l), &mut rng(s));
        let ctx0 = at(0);
        let cp = proto::Ciphertext { c: vec![poly(0, 31).to_bytes(), poly(0, 32).to_bytes()], seed: vec![], level: 0 };
        let pk = PublicKey::from_bytes(&proto::PublicKey { c: Some(cp) }.encode_to_vec(), &par).unwrap();
        let mut v = World {
            t,
            sk2,
            pk,
            rk: vec![],
            ek: vec![],
            rg: vec![],
            mu: vec![],
            ct: vec![],
            ct3: vec![],
            pt: vec![],
            crp: (0..2).map(|i| CommonRandomPoly::new(&par, &mut rng(40 + i)).unwrap()).collect(),
            up: Scaler::new(ctx0, at(1), ScalingFactor::new(&bu(t), &BigUint::from(q[0]))).unwrap(),
            down: Switcher::new(ctx0, at(1)).unwrap(),
            sub: [3, 2 * n - 1, n + 1].iter().map(|e| SubstitutionExponent::new(ctx0, *e).unwrap()).collect(),
            rns: RnsContext::new(&q).unwrap(),
            poly: vec![],
            modulus: Modulus::new(q[0]).unwrap(),
            vals: vec![],
            sk,
            par: par.clone(),
        };
        let x = poly(0, 60);
        v.poly = [x.clone(), twin(&x), poly(0, 61)].into_iter().map(|p| p.into_power_basis()).collect();
        let m: Vec<u64> = (0..n as u64).map(|i| (i * 37 + 5) % 97).collect(); // the same in every world
        let mut m1 = m.clone();
        m1[n - 1] += 1;
        v.vals = vec![m, m1, (0..n as u64).map(|i| i * i % 97).collect()];
        for l in 0..levels - 1 {
            v.rk.push(if l == 0 { RelinearizationKey::new(&v.sk, &mut rng(3)) } else { RelinearizationKey::new_leveled(&v.sk, l, 0, &mut rng(k + 4)) }.unwrap());
            // keys made one exponent at a time: their order within one build is not fixed
            let gk = |f: &dyn Fn(&mut EvaluationKeyBuilder)| {
                let mut b = EvaluationKeyBuilder::new_leveled(&v.sk, l, 0).unwrap();
                f(&mut b);
                proto::EvaluationKey::decode(b.build(&mut rng(k + 5)).unwrap().to_bytes().as_slice()).unwrap()
            };
            let mut e = gk(&|b| {
                b.enable_row_rotation().unwrap();
            });
            let mut steps: Vec<usize> = (0..).map(|i| 1 << i).take_while(|i| *i < n / 2).collect();
            steps.push(3);
            for i in steps {
                e.gk.extend(gk(&|b| {
                    b.enable_column_rotation(i).unwrap();
                }).gk);
            }
            e.gk.extend(gk(&|b| {
                b.enable_expansion(1).unwrap();
            }).gk);
            v.ek.push(EvaluationKey::from_bytes(&e.encode_to_vec(), &par).unwrap());
            let pts: Vec<Plaintext> = v.vals.iter().map(|m| Plaintext::try_encode(m.as_slice(), Encoding::poly_at_level(l), &par).unwrap()).collect();
            v.rg.push(<SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&v.sk, &pts[2], &mut rng(k + 6)).unwrap());
            let a = Multiplicator::default(&v.rk[l]).unwrap();
            let mut b = a.clone();
            b.enable_mod_switching().unwrap();
            v.mu.push([a, b]);
            v.pt.push(pts);
            let p: Vec<Poly<Ntt>> = (0..4).map(|i| poly(l, 70 + i)).collect();
            let ct = |c: Vec<Poly<Ntt>>| Ciphertext::new(c, &par).unwrap();
            let (a, b, c, d) = (&p[0], &p[1], &p[2], &p[3]);
            v.ct.push(vec![
                ct(vec![a.clone(), b.clone()]),
                ct(vec![twin(a), b.clone()]),
                ct(vec![a.clone(), twin(b)]),
                ct(vec![c.clone(), d.clone()]),
            ]);
            v.ct3.push(vec![
                ct(vec![a.clone(), b.clone(), c.clone()]),
                ct(vec![twin(a), b.clone(), c.clone()]),
                ct(vec![a.clone(), twin(b), c.clone()]),
                ct(vec![a.clone(), b.clone(), twin(c)]),
            ]);
        }
        v
    }
    /// Everything that can be written down of the shared objects.
    fn image(&self) -> u128 {
        let mut o: Vec<Vec<u8>> = vec![self.par.to_bytes(), self.sk.to_bytes(), self.pk.to_bytes()];
        o.extend(self.rk.iter().map(|k| k.to_bytes()));
        o.extend(self.rg.iter().map(|k| k.to_bytes()));
        o.extend(self.ct.iter().chain(&self.ct3).flatten().map(|c| c.to_bytes()));
        o.extend(self.poly.iter().map(|p| p.to_bytes()));
        h128(&o)
    }
}

fn e<T, X: std::fmt::Display>(r: Result<T, X>) -> Result<T, String> {
    r.map_err(|x| format!("error: {x}"))
}
fn ctb(c: &Ciphertext) -> Vec<u8> {
    let mut b = c.to_bytes();
    b.extend((c.len() as u64).to_le_bytes());
    b
}
fn pb(p: &Poly<PowerBasis>) -> Vec<u8> {
    p.to_bytes()
}

pub struct Op {
    pub family: String,
    /// distinguishes the operations of a family
    pub which: String,
    f: Box<dyn Fn(&World) -> Res + Send + Sync>,
}

/// The operations; the same in every world.
pub fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |f: &str, which: String, g: Box<dyn Fn(&World) -> Res + Send + Sync>| v.push(Op { family: f.into(), which, f: g });
    macro_rules! op {
        ($f:expr, $w:expr, $g:expr) => {
            add($f, $w, Box::new($g))
        };
    }
    // level 1 first exists where there are three moduli
    let lv = |w: &World, l: usize| l.min(w.ct.len() - 1);
    for l in 0..2usize {
        for a in 0..4usize {
            let n = format!("level {l} operand {a}");
            let x = move |w: &World| w.ct[lv(w, l)][a].clone();
            let y = move |w: &World| w.ct[lv(w, l)][3].clone();
            op!("operator product", format!("{n} left"), move |w| Ok(ctb(&(&x(w) * &y(w)))));
            op!("operator product", format!("{n} right"), move |w| Ok(ctb(&(&y(w) * &x(w)))));
            op!("operator product", format!("{n} squared"), move |w| Ok(ctb(&(&x(w) * &x(w)))));
            for m in 0..2usize {
                op!("multiplicator", format!("{m} {n} left"), move |w| Ok(ctb(&e(w.mu[lv(w, l)][m].multiply(&x(w), &y(w)))?)));
                op!("multiplicator", format!("{m} {n} right"), move |w| Ok(ctb(&e(w.mu[lv(w, l)][m].multiply(&y(w), &x(w)))?)));
                op!("multiplicator", format!("{m} {n} squared"), move |w| Ok(ctb(&e(w.mu[lv(w, l)][m].multiply(&x(w), &x(w)))?)));
            }
            op!("switching down", n.clone(), move |w| {
                let mut c = x(w);
                e(c.switch_down())?;
                Ok(ctb(&c))
            });
            op!("switching down", format!("{n} to the last level"), move |w| {
                let mut c = x(w);
                e(c.switch_to_level(w.par.max_level()))?;
                Ok(ctb(&c))
            });
            op!("decryption", n.clone(), move |w| {
                let d = e(w.sk.try_decrypt(&x(w)))?;
                let m = e(Vec::<u64>::try_decode(&d, Encoding::poly_at_level(lv(w, l))))?;
                let s = e(Vec::<u64>::try_decode(&d, Encoding::simd_at_level(lv(w, l))))?;
                let z = e(unsafe { w.sk.measure_noise(&x(w)) })?;
                Ok(format!("{m:?} {s:?} {z}").into_bytes())
            });
            op!("decryption", format!("{n} by another key"), move |w| Ok(format!("{:?}", e(Vec::<u64>::try_decode(&e(w.sk2.try_decrypt(&x(w)))?, Encoding::poly_at_level(lv(w, l))))?).into_bytes()));
            op!("linear", format!("{n} plus"), move |w| Ok(ctb(&(&x(w) + &y(w)))));
            op!("linear", format!("{n} minus"), move |w| Ok(ctb(&(&x(w) - &y(w)))));
            op!("linear", format!("{n} negated"), move |w| Ok(ctb(&-&x(w))));
            for p in 0..3usize {
                op!("plaintext", format!("{n} plus {p}"), move |w| Ok(ctb(&(&x(w) + &w.pt[lv(w, l)][p]))));
                op!("plaintext", format!("{n} minus {p}"), move |w| Ok(ctb(&(&x(w) - &w.pt[lv(w, l)][p]))));
                op!("plaintext", format!("{n} times {p}"), move |w| Ok(ctb(&(&x(w) * &w.pt[lv(w, l)][p]))));
            }
            op!("rotation", format!("{n} rows"), move |w| Ok(ctb(&e(w.ek[lv(w, l)].rotates_rows(&x(w)))?)));
            for i in [1usize, 3] {
                op!("rotation", format!("{n} columns {i}"), move |w| Ok(ctb(&e(w.ek[lv(w, l)].rotates_columns_by(&x(w), i))?)));
            }
            op!("rotation", format!("{n} inner sum"), move |w| Ok(ctb(&e(w.ek[lv(w, l)].computes_inner_sum(&x(w)))?)));
            for k in [2usize, 1] {
                op!("expansion", format!("{n} to {k}"), move |w| Ok(e(w.ek[lv(w, l)].expands(&x(w), k))?.iter().flat_map(ctb).collect()));
            }
            op!("external product", n.clone(), move |w| Ok(ctb(&(&x(w) * &w.rg[lv(w, l)]))));
            op!("external product", format!("{n} from the left"), move |w| Ok(ctb(&(&w.rg[lv(w, l)] * &x(w)))));
            op!("ciphertext bytes", n.clone(), move |w| {
                let c = e(Ciphertext::from_bytes(&x(w).to_bytes(), &w.par))?;
                Ok(format!("{} {}", c == x(w), h128(&ctb(&c))).into_bytes())
            });
            op!("dot product", n.clone(), move |w| {
                let (c, p) = ([x(w), y(w)], &w.pt[lv(w, l)]);
                Ok(ctb(&e(dot_product_scalar(c.iter(), p.iter().take(2)))?))
            });
            // relinearisation of three parts, each of which may be the one that differs
            op!("relinearisation", n.clone(), move |w| {
                let mut c = w.ct3[lv(w, l)][a].clone();
                e(w.rk[lv(w, l)].relinearizes(&mut c))?;
                Ok(ctb(&c))
            });
            op!("three parts", n.clone(), move |w| {
                let c = &w.ct3[lv(w, l)][a];
                let d = e(w.sk.try_decrypt(c))?;
                Ok(format!("{:?} {}", e(Vec::<u64>::try_decode(&d, Encoding::poly_at_level(lv(w, l))))?, h128(&ctb(&(c * &y(w))))).into_bytes())
            });
            op!("decryption share", n.clone(), move |w| {
                let c = Arc::new(x(w));
                let v = e([&w.sk, &w.sk2].iter().map(|k| DecryptionShare::new(k, &c, &mut rng(80))).collect::<fhe::Result<Vec<_>>>())?;
                Ok(format!("{:?}", e(Vec::<u64>::try_decode(&e(v.into_iter().aggregate::<Plaintext>())?, Encoding::poly_at_level(lv(w, l))))?).into_bytes())
            });
            op!("switching share", n.clone(), move |w| {
                let c: Ciphertext = e([SecretKeySwitchShare::new(&w.sk, &w.sk2, Arc::new(x(w)), &mut rng(81))].into_iter().map(e).collect::<Result<Vec<_>, _>>())?.into_iter().aggregate().map_err(|x| x.to_string())?;
                Ok(ctb(&c))
            });
            op!("public switching share", n.clone(), move |w| {
                let c: Ciphertext = e([PublicKeySwitchShare::new(&w.sk, &w.pk, &x(w), &mut rng(82))].into_iter().map(e).collect::<Result<Vec<_>, _>>())?.into_iter().aggregate().map_err(|x| x.to_string())?;
                Ok(ctb(&c))
            });
        }
        for p in 0..3usize {
            op!("encoding", format!("level {l} values {p}"), move |w| {
                let l = lv(w, l);
                let mut o = vec![];
                for enc in [Encoding::poly_at_level(l), Encoding::simd_at_level(l)] {
                    let a = e(Plaintext::try_encode(w.vals[p].as_slice(), enc.clone(), &w.par))?;
                    let i: Vec<i64> = w.vals[p].iter().map(|x| *x as i64 - 90).collect();
                    let b = e(Plaintext::try_encode(i.as_slice(), enc.clone(), &w.par))?;
                    o.extend(format!("{:?} {:?} {}", e(Vec::<u64>::try_decode(&a, enc.clone()))?, e(Vec::<i64>::try_decode(&b, enc))?, h128(&ctb(&(&w.ct[l][3] + &a)))).into_bytes());
                }
                Ok(o)
            });
            op!("encryption", format!("level {l} plaintext {p}"), move |w| Ok(ctb(&e(<PublicKey as FheEncrypter<Plaintext, Ciphertext>>::try_encrypt(&w.pk, &w.pt[lv(w, l)][p], &mut rng(83)))?)));
            op!("encryption", format!("level {l} plaintext {p} by the secret key"), move |w| {
                // its random part is the operating system's
                let c: Ciphertext = e(w.sk.try_encrypt(&w.pt[lv(w, l)][p], &mut rng(84)))?;
                let z = e(unsafe { w.sk.measure_noise(&c) })?;
                Ok(format!("{:?} {z}", e(Vec::<u64>::try_decode(&e(w.sk.try_decrypt(&c))?, Encoding::poly_at_level(lv(w, l))))?).into_bytes())
            });
            op!("RGSW encryption", format!("level {l} plaintext {p}"), move |w| Ok(e(<SecretKey as FheEncrypter<Plaintext, RGSWCiphertext>>::try_encrypt(&w.sk, &w.pt[lv(w, l)][p], &mut rng(85)))?.to_bytes()));
        }
        for k in 0..2usize {
            op!("keys", format!("level {l} key {k} relinearisation"), move |w| Ok(e(RelinearizationKey::new_leveled([&w.sk, &w.sk2][k], lv(w, l), 0, &mut rng(86)))?.to_bytes()));
            for i in [1usize, 3] {
                op!("keys", format!("level {l} key {k} column {i}"), move |w| {
                    let mut b = e(EvaluationKeyBuilder::new_leveled([&w.sk, &w.sk2][k], lv(w, l), 0))?;
                    e(b.enable_column_rotation(i))?;
                    Ok(e(b.build(&mut rng(87)))?.to_bytes())
                });
            }
        }
    }
    for k in 0..2usize {
        op!("keys", format!("secret {k}"), move |w| Ok(SecretKey::random(&w.par, &mut rng(88 + k as u64)).to_bytes()));
        for c in 0..2usize {
            op!("joint keys", format!("key {k} polynomial {c}"), move |w| {
                let v = e([&w.sk, &w.sk2].iter().skip(k).map(|s| PublicKeyShare::new(s, w.crp[c].clone(), &mut rng(89))).collect::<fhe::Result<Vec<_>>>())?;
                Ok(e(v.into_iter().aggregate::<PublicKey>())?.to_bytes())
            });
            op!("common polynomials", format!("stream {k} level {c}"), move |w| {
                let p = e(CommonRandomPoly::new_leveled(&w.par, c, &mut rng(90 + k as u64)))?;
                Ok(match PublicKeyShare::new(&w.sk, p, &mut rng(91)) {
                    Ok(s) => e([s].into_iter().aggregate::<PublicKey>())?.to_bytes(),
                    Err(x) => x.to_string().into_bytes(),
                })
            });
        }
    }
    for a in 0..3usize {
        let n = format!("polynomial {a}");
        op!("ring", format!("{n} product"), move |w| Ok(pb(&(&w.poly[a].clone().into_ntt() * &w.poly[2].clone().into_ntt()).into_power_basis())));
        op!("ring", format!("{n} precomputed product"), move |w| Ok(pb(&(&w.poly[2].clone().into_ntt() * &w.poly[a].clone().into_ntt_shoup()).into_power_basis())));
        for s in 0..3usize {
            op!("ring", format!("{n} substitution {s}"), move |w| Ok([pb(&e(w.poly[a].substitute(&w.sub[s]))?), e(w.poly[a].clone().into_ntt().substitute(&w.sub[s]))?.to_bytes()].concat()));
        }
        op!("ring", format!("{n} dot product"), move |w| {
            let p: Vec<Poly<Ntt>> = w.poly.iter().map(|p| p.clone().into_ntt()).collect();
            Ok(e(dot_product([&p[a], &p[2]].into_iter(), [&p[2], &p[a]].into_iter()))?.to_bytes())
        });
        op!("scaling", format!("{n} scaled"), move |w| Ok(pb(&e(w.poly[a].scale(&w.up))?)));
        op!("scaling", format!("{n} scaled transformed"), move |w| Ok(e(w.poly[a].clone().into_ntt().scale(&w.up))?.to_bytes()));
        op!("scaling", format!("{n} switched"), move |w| Ok(pb(&e(w.poly[a].switch(&w.down))?)));
        op!("scaling", format!("{n} dropped"), move |w| {
            let mut p = w.poly[a].clone();
            e(p.switch_down())?;
            Ok(pb(&p))
        });
        op!("numbers", format!("{n} lifted"), move |w| {
            let v: Vec<BigUint> = Vec::<BigUint>::from(&w.poly[a]);
            let back: Vec<Vec<u64>> = v.iter().map(|x| w.rns.project(x)).collect();
            Ok(format!("{v:?} {back:?}").into_bytes())
        });
        op!("numbers", format!("{n} powers"), move |w| {
            let v: Vec<u64> = w.vals[a].iter().map(|x| w.modulus.pow(x + 2, w.t)).collect();
            let i: Vec<_> = w.vals[a].iter().map(|x| w.modulus.inv(*x)).collect();
            Ok(format!("{v:?} {i:?}").into_bytes())
        });
        op!("numbers", format!("{n} small"), move |w| {
            let p = e(Poly::<PowerBasis>::small(w.poly[0].ctx(), 3 + a, &mut rng(92)))?;
            let r = Poly::<PowerBasis>::random_from_seed(w.poly[0].ctx(), [a as u8; 32]);
            Ok([pb(&p), pb(&r)].concat())
        });
        op!("numbers", format!("context {a}"), move |w| {
            let c = e(Context::new_arc(&w.par.moduli()[..w.par.moduli().len() - a % 2], w.par.degree()))?;
            let p = Poly::<PowerBasis>::random(&c, &mut rng(93 + a as u64));
            Ok([pb(&p), p.into_ntt().to_bytes()].concat())
        });
    }
    v
}
fn run(o: &Op, w: &World) -> u128 {
    h128(&guard(|| (o.f)(w)))
}

/// `mc pure`: what every operation gives when it is the first of its process. One line for each operation.
pub fn alone(world: usize, op: usize) -> i32 {
    crate::core::install_panic_hook();
    let w = World::new(world);
    println!("{:x}", run(&ops()[op], &w));
    0
}
/// `mc pure-words`: words (world, operation)+ in one fresh process, objects of each world made on first use.
pub fn word(a: &[String]) -> i32 {
    crate::core::install_panic_hook();
    let o = ops();
    let mut ws: HashMap<usize, World> = HashMap::new();
    for p in a {
        let (w, k) = p.split_once(':').unwrap();
        let (w, k): (usize, usize) = (w.parse().unwrap(), k.parse().unwrap());
        println!("{:x}", run(&o[k], ws.entry(w).or_insert_with(|| World::new(w))));
    }
    0
}
fn child(args: &[String]) -> Result<Vec<u128>, String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(args).output().map_err(|x| x.to_string())?;
    if !o.status.success() {
        return Err(format!("the process ended with {}", o.status));
    }
    String::from_utf8_lossy(&o.stdout).lines().map(|l| u128::from_str_radix(l, 16).map_err(|x| x.to_string())).collect()
}

pub fn b19(r: &Rep) {
    let t = r.thorough;
    let o = ops();
    let m = o.len();
    let name = |i: usize| format!("{} {}", o[i].family, o[i].which);
    let worlds: Vec<usize> = if t { (0..WORLDS.len()).collect() } else { vec![0, 1, 2, 3, 4, 5, 6] };
    // what each operation gives alone
    let expect: Vec<Vec<std::sync::OnceLock<Result<u128, String>>>> = worlds.iter().map(|_| (0..m).map(|_| Default::default()).collect()).collect();
    let want = |w: usize, k: usize| expect[w][k].get_or_init(|| child(&["pure".into(), w.to_string(), k.to_string()])?.first().copied().ok_or("no result".into())).clone();
    r.suite("alone", &format!("each of {m} operations in {} worlds as the first and only one of a process, and again on fresh objects in a process that has done others", worlds.len()), |su| {
        let items: Vec<(usize, usize)> = worlds.iter().flat_map(|w| (0..m).map(move |k| (*w, k))).collect();
        su.par(&items, |&(w, k)| {
            su.case(&format!("{}: {}", WORLDS[w], name(k)), || {
                let a = [want(w, k)?];
                let x = World::new(w);
                let b = run(&o[k], &x);
                su.outcome(a[0] as u64);
                if b != a[0] {
                    return Err("another result than in a process of its own".into());
                }
                if run(&o[k], &x) != b {
                    return Err("another result the second time".into());
                }
                Ok(3)
            });
        });
    });
    let image: Vec<u128> = worlds.iter().map(|w| World::new(*w).image()).collect();
    let check = |ws: &[(usize, usize)], got: &[u128]| -> Result<u64, String> {
        for (i, ((w, k), g)) in ws.iter().zip(got).enumerate() {
            if *g != want(*w, *k)? {
                return Err(format!("operation {i} ({}: {}) gives another result than alone", WORLDS[*w], name(*k)));
            }
        }
        Ok(ws.len() as u64)
    };
    let fam = |i: usize, j: usize| o[i].family == o[j].family;
    r.suite("pairs", &format!("every ordered pair of the {m} operations on the same fresh objects: both results as alone, no shared object changed"), |su| {
        su.par_n(m, |i| {
            // making the objects costs far more than the operations: the words of one first operation that is repeated
            // before each second one are one history; each pair of one family starts afresh
            let w = World::new(0);
            let mut seen = vec![];
            for j in 0..m {
                su.case(&format!("{} then {}", name(i), name(j)), || {
                    let fresh;
                    let x = if fam(i, j) {
                        fresh = World::new(0);
                        &fresh
                    } else {
                        &w
                    };
                    let g = [run(&o[i], x), run(&o[j], x)];
                    seen.push(j);
                    su.transitions(2);
                    check(&[(0, i), (0, j)], &g)
                });
            }
            su.case(&format!("objects after the words of {}", name(i)), || if w.image() == image[0] { Ok(1) } else { Err("a shared object has changed".into()) });
        });
    });
    r.suite("triples", "every ordered triple of operations of one family (in the quick tier: of the families on ciphertexts at level 0), on fresh objects", |su| {
        let mut items = vec![];
        for i in 0..m {
            for j in 0..m {
                if fam(i, j) && (t || (o[i].which.contains("level 0") || !o[i].which.contains("level")) && (o[j].which.contains("level 0") || !o[j].which.contains("level"))) {
                    items.push((i, j));
                }
            }
        }
        su.par(&items, |&(i, j)| {
            let w = World::new(0);
            for k in (0..m).filter(|k| fam(i, *k) && (t || !o[*k].which.contains("level 1"))) {
                su.case(&format!("{}, {}, {}", name(i), o[j].which, o[k].which), || {
                    su.transitions(3);
                    check(&[(0, i), (0, j), (0, k)], &[run(&o[i], &w), run(&o[j], &w), run(&o[k], &w)])
                });
            }
        });
    });
    r.suite("worlds", "every operation in every ordered pair of worlds that differ in plaintext modulus, degree, order or number of moduli, keys or variance, followed by the same in the first again: both alive, and each made after the other is gone (at the same addresses)", |su| {
        let mut items = vec![];
        for &a in &worlds {
            for &b in &worlds {
                if a != b {
                    items.push((a, b));
                }
            }
        }
        su.par(&items, |&(a, b)| {
            let (x, y) = (World::new(a), World::new(b));
            for k in 0..m {
                su.case(&format!("{}, {}: {}", WORLDS[a], WORLDS[b], name(k)), || {
                    su.transitions(3);
                    check(&[(a, k), (b, k), (a, k)], &[run(&o[k], &x), run(&o[k], &y), run(&o[k], &x)])
                });
            }
            drop((x, y));
            for k in (0..m).step_by(if t { 1 } else { 4 }) {
                su.case(&format!("{} gone, {}: {}", WORLDS[a], WORLDS[b], name(k)), || {
                    su.transitions(2);
                    let f = run(&o[k], &World::new(a));
                    let g = run(&o[k], &World::new(b));
                    check(&[(a, k), (b, k)], &[f, g])
                });
            }
        });
    });
    r.suite("fresh-processes", "each family's operations of every ordered pair of worlds, forwards and backwards, in a process that has done nothing else: a table shared by the whole process is filled by one world and used by the other", |su| {
        let mut fams: Vec<&str> = vec![];
        for x in &o {
            if fams.last() != Some(&x.family.as_str()) && !fams.contains(&x.family.as_str()) {
                fams.push(&x.family);
            }
        }
        let mut items = vec![];
        for &a in &worlds {
            for &b in &worlds {
                for f in &fams {
                    if a != b {
                        items.push((a, b, *f));
                    }
                }
            }
        }
        su.par(&items, |&(a, b, f)| {
            su.case(&format!("{}, {}: {f}", WORLDS[a], WORLDS[b]), || {
                let ks: Vec<usize> = (0..m).filter(|k| o[*k].family == f).collect();
                let mut ws: Vec<(usize, usize)> = vec![];
                for k in &ks {
                    ws.push((a, *k));
                    ws.push((b, *k));
                }
                for k in ks.iter().rev() {
                    ws.push((b, *k));
                    ws.push((a, *k));
                }
                let mut args = vec!["pure-words".to_string()];
                args.extend(ws.iter().map(|(w, k)| format!("{w}:{k}")));
                su.transitions(ws.len() as u64);
                check(&ws, &child(&args)?)
            });
        });
    });
    r.suite("threads", "two threads on shared objects, one with two operations of a family and one with one, in every order of the three at the granularity of operations", |su| {
        let mut items = vec![];
        for i in 0..m {
            for j in 0..m {
                if fam(i, j) && (t || (!o[i].which.contains("level 1") && !o[j].which.contains("level 1"))) {
                    items.push((i, j));
                }
            }
        }
        su.par(&items, |&(i, j)| {
            let w = World::new(0);
            // the third repeats the first; by the other thread first, second and last
            for pos in 0..3usize {
                su.case(&format!("{} by one thread, {} by another at place {pos}", name(i), o[j].which), || {
                    let order: Vec<(usize, usize)> = {
                        let mut v = vec![(0, i), (0, i)];
                        v.insert(pos, (1, j));
                        v
                    };
                    let got = std::thread::scope(|s| {
                        let (tx, rx) = mpsc::channel::<u128>();
                        let mut send = vec![];
                        for _ in 0..2 {
                            let (a, b) = mpsc::channel::<usize>();
                            let (tx, o, w) = (tx.clone(), &o, &w);
                            s.spawn(move || {
                                for k in b {
                                    tx.send(run(&o[k], w)).unwrap();
                                }
                            });
                            send.push(a);
                        }
                        let got: Vec<u128> = order
                            .iter()
                            .map(|(th, k)| {
                                send[*th].send(*k).unwrap();
                                rx.recv().unwrap()
                            })
                            .collect();
                        drop(send);
                        got
                    });
                    su.transitions(3);
                    check(&order.iter().map(|(_, k)| (0, *k)).collect::<Vec<_>>(), &got)
                });
            }
        });
    });
}
