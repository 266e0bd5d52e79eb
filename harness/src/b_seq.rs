//! Histories of configuration objects: multiplicators (B08) and evaluation-key builders (B09).
use crate::b_core::*;
use crate::b_ops::*;
use crate::core::*;
use fhe::bfv::{EvaluationKey, EvaluationKeyBuilder, Multiplicator};

/// Every word of configuration calls and uses: what the product is depends on the accepted calls alone.
pub fn multiplicators(r: &Rep) {
    let depth = if r.thorough { 5 } else { 4 };
    for f in [p0 as fn() -> Ps, p2, p5] {
        let ps = f();
        r.suite(&format!("configuration-{}", ps.name), &format!("every word of up to {depth} calls from {{relinearise with each of two keys, with a key for another level, with a key of other parameters, switch moduli, multiply, clone}} x levels x {{default, plain, both operands scaled}}: the product after every word; N={} t={} moduli {:?}", ps.n, ps.t, ps.q), |su| {
            let foreign = Ps::new("foreign", ps.n, &ps.t + 2u32, Mods::List(&ps.q), ps.var as usize, Secret::Random(405));
            for l in lv(&ps) {
                let ops = operands(&ps, l, 2);
                let (a, b) = (&ops[0], &ops[1]);
                let keys = rks(&ps, l);
                let two: Vec<_> = keys.iter().take(1).chain(keys.iter().skip(1).last()).collect();
                let last = l + 1 == ps.levels();
                let wrong = (0..ps.levels()).filter(|o| *o != l).flat_map(|o| rks(&ps, o)).next();
                let far = rks(&foreign, l).into_iter().next();
                let mut ss: Vec<(Strategy, Option<usize>)> = strategies(&ps, l).into_iter().filter(|s| s.name == "plain" || s.name.starts_with("both")).take(2).map(|s| (s, None)).collect();
                if let Some((k, key)) = keys.first() {
                    let one = || (num_bigint::BigUint::from(1u32), num_bigint::BigUint::from(1u32));
                    ss.push((Strategy { name: "default".into(), m: Multiplicator::default(key).unwrap(), f: [one(), one()] }, Some(*k)));
                }
                let words: Vec<Vec<usize>> = (0..=depth).flat_map(|k| all_tuples(7, k)).filter(|w| !w.windows(2).any(|x| x == [5, 5] || x == [6, 6])).collect();
                for (s, with) in &ss {
                    su.par(&words, |w| {
                        su.case(&format!("level {l} {} {w:?}", s.name), || {
                            let mut m = s.m.clone();
                            let (mut rk, mut sw) = (*with, false);
                            let mut n = 0;
                            let product = |m: &Multiplicator, rk: Option<usize>, sw: bool| -> Result<u64, String> {
                                let mut w = w_strategy(&ps, s, a, b, l);
                                let mut parts = 3;
                                if let Some(k) = rk {
                                    w += ps.w_ks(l, k);
                                    parts = 2;
                                }
                                let to = l + sw as usize;
                                w = ps.w_down(&w, parts, l, to);
                                let ct = er(m.multiply(&a.ct, &b.ct), "multiply")?;
                                if ps.qq(to) <= ps.t {
                                    return structure(&ps, &ct, parts, to).map(|_| 0);
                                }
                                verify(&ps, &Cm { ct, m: ps.pmul(&a.m, &b.m), parts, level: to, w })
                            };
                            for x in w {
                                match x {
                                    0 | 1 => {
                                        if let Some((k, key)) = two.get(*x) {
                                            er(m.enable_relinearization(key), "enable_relinearization")?;
                                            rk = Some(*k);
                                        }
                                    }
                                    2 | 3 => {
                                        if let Some((_, key)) = if *x == 2 { &wrong } else { &far } {
                                            if m.enable_relinearization(key).is_ok() {
                                                return Err("a foreign relinearisation key was accepted".into());
                                            }
                                        }
                                    }
                                    4 => {
                                        if m.enable_mod_switching().is_ok() == last {
                                            return Err(format!("modulus switching: success is {last}"));
                                        }
                                        sw |= !last;
                                    }
                                    5 => n += product(&m, rk, sw)?,
                                    _ => m = m.clone(),
                                }
                            }
                            n += product(&m, rk, sw)?;
                            su.outcome(h64(&(l, &s.name, rk, sw)));
                            Ok(n)
                        });
                    });
                }
            }
        });
    }
}

/// Every word of builder calls: each key built on the way can do what had been enabled by then.
pub fn builders(r: &Rep) {
    let depth = if r.thorough { 4 } else { 3 };
    for f in [p0 as fn() -> Ps, p2] {
        let ps = f();
        let (n, nl) = (ps.n, ps.n.ilog2() as usize);
        r.suite(&format!("builder-histories-{}", ps.name), &format!("every word of up to {depth} calls from {{row rotation, inner sum, column steps 1, 2, N/2-1, expansion 1, 2, log N, refused step, refused expansion, build}} at two level pairs; the key built at the end and each one built on the way; N={n} t={} moduli {:?}", ps.t, ps.q), |su| {
            let mut pairs: Vec<(usize, usize)> = lv(&ps).into_iter().flat_map(|l| (0..=l).map(move |k| (l, k))).collect();
            pairs = vec![pairs[0], *pairs.last().unwrap()];
            pairs.dedup();
            let words: Vec<Vec<usize>> = (1..=depth).flat_map(|k| all_tuples(11, k)).collect();
            let items: Vec<((usize, usize), &Vec<usize>)> = pairs.iter().flat_map(|p| words.iter().map(move |w| (*p, w))).collect();
            su.par(&items, |((l, k), w)| {
                su.case(&format!("levels {l}/{k} {w:?}"), || {
                    let mut b = er(EvaluationKeyBuilder::new_leveled(&ps.sk, *l, *k), "builder")?;
                    let (mut on, mut xl) = (vec![], 0);
                    let mut built: Vec<(EvaluationKey, Vec<usize>, usize)> = vec![];
                    for (i, x) in w.iter().enumerate() {
                        let col = [1, 2, n / 2 - 1];
                        let exp = [1, 2, nl];
                        match x {
                            0 => {
                                er(b.enable_row_rotation(), "row rotation")?;
                                on.push(0);
                            }
                            1 => {
                                er(b.enable_inner_sum(), "inner sum")?;
                                on.push(1);
                            }
                            2..=4 => {
                                er(b.enable_column_rotation(col[x - 2]), "column rotation")?;
                                on.push(col[x - 2] + 1);
                            }
                            5..=7 => {
                                er(b.enable_expansion(exp[x - 5]), "expansion")?;
                                xl = exp[x - 5]; // a setter: the last call counts
                            }
                            8 => {
                                if b.enable_column_rotation(n / 2).is_ok() {
                                    return Err("an invalid step was enabled".into());
                                }
                            }
                            9 => {
                                if b.enable_expansion(nl + 1).is_ok() {
                                    return Err("an invalid expansion was enabled".into());
                                }
                            }
                            _ => built.push((er(b.build(&mut rng(i as u64)), "build")?, on.clone(), xl)),
                        }
                    }
                    built.push((er(b.build(&mut rng(99)), "build")?, on, xl));
                    for (key, on, xl) in &built {
                        support(&ps, key, *l, *k, on, *xl)?;
                    }
                    su.outcome(h64(&w));
                    Ok(built.len() as u64)
                });
            });
        });
    }
}
