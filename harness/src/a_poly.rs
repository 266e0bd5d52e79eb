//! A04 ring operations along histories, A05 switching and scaling, A06 dot products, A10 wire format,
//! A11 variable-time permission.
use crate::core::*;
use crate::model::*;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, Representation, SubstitutionExponent, dot_product};
use fhe_traits::{DeserializeWithContext, PublicData, Serialize, VariableTime};
use ndarray::{Array2, ShapeBuilder};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use std::sync::Arc;

pub fn vt() -> VariableTime {
    VariableTime::new(PublicData::assert_public())
}

type Rows = Vec<Vec<u64>>;

pub fn flat(r: &Rows) -> Vec<u64> {
    r.iter().flatten().copied().collect()
}
pub fn rows_of(v: &[u64], n: usize) -> Rows {
    v.chunks(n).map(|c| c.to_vec()).collect()
}
pub fn pb(ctx: &Arc<Context>, r: &Rows, v: bool) -> Poly<PowerBasis> {
    let a = Array2::from_shape_vec((r.len(), r[0].len()), flat(r)).unwrap();
    Poly::<PowerBasis>::try_convert_from(a, ctx, v).unwrap()
}
pub fn coeffs<R: fhe_math::rq::RepresentationTag>(p: &Poly<R>) -> Rows {
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}

// ---- naive ring operations on residue rows
fn m_map(a: &Rows, b: &Rows, q: &[u64], f: impl Fn(u64, u64, u64) -> u64) -> Rows {
    (0..q.len()).map(|i| a[i].iter().zip(&b[i]).map(|(x, y)| f(*x, *y, q[i])).collect()).collect()
}
pub fn m_add(a: &Rows, b: &Rows, q: &[u64]) -> Rows {
    m_map(a, b, q, |x, y, p| ((x as u128 + y as u128) % p as u128) as u64)
}
pub fn m_sub(a: &Rows, b: &Rows, q: &[u64]) -> Rows {
    m_map(a, b, q, |x, y, p| ((x as u128 + p as u128 - y as u128) % p as u128) as u64)
}
pub fn m_mul(a: &Rows, b: &Rows, q: &[u64]) -> Rows {
    (0..q.len()).map(|i| negmul(&a[i], &b[i], q[i])).collect()
}
pub fn m_neg(a: &Rows, q: &[u64]) -> Rows {
    (0..q.len()).map(|i| a[i].iter().map(|x| (q[i] - x) % q[i]).collect()).collect()
}
pub fn m_scal(a: &Rows, s: &BigUint, q: &[u64]) -> Rows {
    (0..q.len()).map(|i| { let r = (s % q[i]).to_u64().unwrap(); a[i].iter().map(|x| mulmod(*x, r, q[i])).collect() }).collect()
}
pub fn m_subst(a: &Rows, e: usize, q: &[u64]) -> Rows {
    (0..q.len())
        .map(|i| {
            let n = a[i].len();
            let mut o = vec![0u64; n];
            for j in 0..n {
                let k = (j * (e % (2 * n))) % (2 * n);
                let t = k % n;
                o[t] = ((o[t] as u128 + if k >= n { (q[i] - a[i][j]) % q[i] } else { a[i][j] } as u128) % q[i] as u128) as u64;
            }
            o
        })
        .collect()
}
/// multiply by x^-k
pub fn m_invpow(a: &Rows, k: usize, q: &[u64]) -> Rows {
    (0..q.len())
        .map(|i| {
            let n = a[i].len();
            let s = (2 * n - k % (2 * n)) % (2 * n);
            let mut o = vec![0u64; n];
            for j in 0..n {
                let t = (s + j) % (2 * n);
                o[t % n] = if t >= n { (q[i] - a[i][j]) % q[i] } else { a[i][j] };
            }
            o
        })
        .collect()
}
/// divide by the last modulus and round to nearest, drop the last modulus
pub fn m_down(a: &Rows, q: &[u64]) -> Rows {
    let n = a[0].len();
    let l = q.len() - 1;
    let qq = prod(q);
    let mut o = vec![vec![0u64; n]; l];
    for j in 0..n {
        let res: Vec<u64> = (0..q.len()).map(|i| a[i][j]).collect();
        let x = crt(&res, q);
        debug_assert!(x < qq);
        let r = rdiv(&bi(&x), &BigInt::from(q[l]));
        for (i, v) in residues(&r, &q[..l]).into_iter().enumerate() {
            o[i][j] = v;
        }
    }
    o
}

// ------------------------------------------------------------------------------- history machine
#[derive(Clone)]
pub enum P {
    B(Poly<PowerBasis>),
    N(Poly<Ntt>),
    S(Poly<NttShoup>),
}
impl P {
    fn rows(&self) -> Rows {
        match self {
            P::B(p) => coeffs(p),
            P::N(p) => coeffs(p),
            P::S(p) => coeffs(p),
        }
    }
    fn vt(&self) -> bool {
        match self {
            P::B(p) => p.allows_variable_time_computations(),
            P::N(p) => p.allows_variable_time_computations(),
            P::S(p) => p.allows_variable_time_computations(),
        }
    }
    fn tag(&self) -> u8 {
        match self {
            P::B(_) => 0,
            P::N(_) => 1,
            P::S(_) => 2,
        }
    }
}
#[derive(Clone)]
pub struct St {
    p: P,
    m: Rows,
    lvl: usize,
    /// the permission the operands justify
    may: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Add(usize, u8),
    Sub(usize, u8),
    SelfAdd,
    SelfSub,
    SelfMul,
    Neg(bool),
    MulNtt(usize, u8),
    MulShoup(usize, u8),
    IntoMul(usize),
    LazyMul(usize),
    Scal(usize, u8),
    Subst(usize),
    InvPow(usize),
    ToPb,
    IntoPb,
    IntoNtt,
    IntoShoup,
    Allow,
    Disallow,
    Down,
    Wire,
}
struct Lv {
    ctx: Arc<Context>,
    q: Vec<u64>,
    consts: Vec<(Rows, bool, Poly<PowerBasis>, Poly<Ntt>, Poly<NttShoup>)>,
    lazy: Vec<(Vec<u64>, Rows, Poly<Ntt>)>,
    scal: Vec<BigUint>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Arith,
    Wire,
    Flags,
}
struct PolyM {
    n: usize,
    lv: Vec<Lv>,
    mode: Mode,
    full: bool,
}

impl PolyM {
    fn new(moduli: &[u64], n: usize, mode: Mode, full: bool) -> Self {
        let top = Context::new_arc(moduli, n).unwrap();
        let mut lv = vec![];
        for l in 0..moduli.len() {
            let ctx = top.context_at_level(l).unwrap();
            let q = moduli[..moduli.len() - l].to_vec();
            let mut consts = vec![];
            let mut rng = Lcg(n as u64 + l as u64);
            let c0: Rows = q.iter().map(|p| vec![p - 1; n]).collect();
            let c1: Rows = q.iter().map(|p| (0..n).map(|j| if j == n - 1 { p / 2 } else { 0 }).collect()).collect();
            let c2: Rows = q.iter().map(|p| (0..n).map(|_| rng.below(*p)).collect()).collect();
            for (c, v) in [(c0.clone(), false), (c1, true), (c2.clone(), true), (c2, false)] {
                let p = pb(&ctx, &c, v);
                consts.push((c, v, p.clone(), p.clone().into_ntt(), p.into_ntt_shoup()));
            }
            let mut lazy = vec![];
            for k in 0..2 {
                let raw: Vec<u64> = (0..n).map(|j| if k == 0 { if j % 2 == 0 { u64::MAX } else { q[0] * 2 } } else { rng.next() }).collect();
                let c: Rows = q.iter().map(|p| raw.iter().map(|x| x % p).collect()).collect();
                let p = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&raw, &ctx, vt());
                lazy.push((raw, c, p));
            }
            let qq = prod(&q);
            let scal = vec![BigUint::zero(), BigUint::one(), &qq - 1u32, &qq * 3u32 + 7u32, qq.clone(), BigUint::from(u64::MAX)];
            lv.push(Lv { ctx, q, consts, lazy, scal });
        }
        PolyM { n, lv, mode, full }
    }
    fn inits(&self) -> Vec<(String, St)> {
        let l = &self.lv[0];
        let mut rng = Lcg(self.n as u64 * 77);
        let mut v = vec![];
        let rnd: Rows = l.q.iter().map(|p| (0..self.n).map(|_| rng.below(*p)).collect()).collect();
        let ext: Rows = l.q.iter().map(|p| (0..self.n).map(|j| if j % 3 == 0 { p - 1 } else { (j as u64) % p }).collect()).collect();
        for (name, r) in [("rnd", &rnd), ("ext", &ext)] {
            for f in [false, true] {
                let p = pb(&l.ctx, r, f);
                v.push((format!("{name}.pb.vt{f}"), St { p: P::B(p.clone()), m: r.clone(), lvl: 0, may: f }));
                v.push((format!("{name}.ntt.vt{f}"), St { p: P::N(p.clone().into_ntt()), m: r.clone(), lvl: 0, may: f }));
                v.push((format!("{name}.shoup.vt{f}"), St { p: P::S(p.into_ntt_shoup()), m: r.clone(), lvl: 0, may: f }));
            }
        }
        // column-major input storage
        let mut a = Array2::<u64>::zeros((l.q.len(), self.n).f());
        for i in 0..l.q.len() {
            for j in 0..self.n {
                a[[i, j]] = rnd[i][j];
            }
        }
        if self.mode == Mode::Arith {
            for f in [false, true] {
                if let Ok(p) = Poly::<PowerBasis>::try_convert_from(a.clone(), &l.ctx, f) {
                    v.push((format!("colmajor.pb.vt{f}"), St { p: P::B(p), m: rnd.clone(), lvl: 0, may: f }));
                }
            }
            let z: Rows = l.q.iter().map(|_| vec![0; self.n]).collect();
            v.push(("zero.pb".into(), St { p: P::B(Poly::zero(&l.ctx)), m: z.clone(), lvl: 0, may: false }));
            v.push(("zero.ntt".into(), St { p: P::N(Poly::zero(&l.ctx)), m: z.clone(), lvl: 0, may: false }));
            v.push(("zero.shoup".into(), St { p: P::S(Poly::zero(&l.ctx)), m: z, lvl: 0, may: false }));
        }
        v
    }
}

macro_rules! addsub {
    ($p:expr, $c:expr, $form:expr, $add:expr) => {{
        let (p, c) = ($p, $c);
        match ($add, $form) {
            (true, 0) => p + c,
            (true, 1) => {
                let mut x = p.clone();
                x += c;
                x
            }
            (true, 2) => p.clone() + c.clone(),
            (true, _) => c + p,
            (false, 0) => p - c,
            (false, 1) => {
                let mut x = p.clone();
                x -= c;
                x
            }
            (false, _) => c - p,
        }
    }};
}

impl Machine for PolyM {
    type State = St;
    type Op = Op;
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![];
        let l = &self.lv[s.lvl];
        let nc = l.consts.len();
        let tag = s.p.tag();
        let forms: &[u8] = if self.mode == Mode::Wire { &[0] } else { &[0, 1, 2, 3] };
        if tag != 2 {
            for c in 0..nc {
                for f in forms {
                    if self.full || *f < 2 || c == 0 || c == 2 {
                        v.push(Op::Add(c, *f));
                        if *f < 3 {
                            v.push(Op::Sub(c, *f));
                        }
                    }
                }
            }
            v.extend([Op::SelfAdd, Op::SelfSub, Op::Neg(false), Op::Neg(true)]);
            for k in 0..if self.mode == Mode::Arith { l.scal.len() } else { 3 } {
                for f in 0..if self.mode == Mode::Arith { 3 } else { 1 } {
                    v.push(Op::Scal(k, f));
                }
            }
        }
        let n = self.n;
        let es: Vec<usize> = if self.mode == Mode::Arith { (0..n).map(|i| 2 * i + 1).chain([2 * n + 3, 6 * n - 1]).collect() } else { vec![3, 2 * n - 1] };
        for e in es {
            v.push(Op::Subst(e));
        }
        match tag {
            0 => {
                for k in if self.mode == Mode::Arith { vec![0, 1, 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + 5, 1 << 40] } else { vec![1, n + 1] } {
                    v.push(Op::InvPow(k));
                }
                v.extend([Op::IntoNtt, Op::IntoShoup, Op::ToPb, Op::Down]);
            }
            1 => {
                for c in 0..nc {
                    for f in [0u8, 1] {
                        v.push(Op::MulNtt(c, f));
                        v.push(Op::MulShoup(c, f));
                    }
                }
                v.extend([Op::SelfMul, Op::IntoPb, Op::IntoShoup, Op::ToPb]);
            }
            _ => {
                for c in 0..nc {
                    v.push(Op::IntoMul(c));
                }
                for k in 0..l.lazy.len() {
                    v.push(Op::LazyMul(k));
                }
                v.extend([Op::IntoPb, Op::IntoNtt, Op::ToPb]);
            }
        }
        v.extend([Op::Allow, Op::Disallow]);
        if self.mode != Mode::Arith {
            v.push(Op::Wire);
        }
        v
    }
    fn step(&self, s: &St, op: &Op) -> Result<St, String> {
        let l = &self.lv[s.lvl];
        let q = &l.q;
        let mut o = s.clone();
        let before = s.p.rows();
        match (op, &s.p) {
            (Op::Add(c, f), _) | (Op::Sub(c, f), _) => {
                let add = matches!(op, Op::Add(..));
                let k = &l.consts[*c];
                o.p = match &s.p {
                    P::B(p) => P::B(addsub!(p, &k.2, *f, add)),
                    P::N(p) => P::N(addsub!(p, &k.3, *f, add)),
                    P::S(_) => unreachable!(),
                };
                o.m = if add {
                    m_add(&s.m, &k.0, q)
                } else if *f < 2 {
                    m_sub(&s.m, &k.0, q)
                } else {
                    m_sub(&k.0, &s.m, q)
                };
                o.may &= k.1;
            }
            (Op::SelfAdd, P::B(p)) => {
                o.p = P::B(p + p);
                o.m = m_add(&s.m, &s.m, q);
            }
            (Op::SelfAdd, P::N(p)) => {
                o.p = P::N(p + p);
                o.m = m_add(&s.m, &s.m, q);
            }
            (Op::SelfSub, P::B(p)) => {
                o.p = P::B(p - p);
                o.m = m_sub(&s.m, &s.m, q);
            }
            (Op::SelfSub, P::N(p)) => {
                o.p = P::N(p - p);
                o.m = m_sub(&s.m, &s.m, q);
            }
            (Op::SelfMul, P::N(p)) => {
                o.p = P::N(p * p);
                o.m = m_mul(&s.m, &s.m, q);
            }
            (Op::Neg(owned), _) => {
                o.p = match (&s.p, owned) {
                    (P::B(p), false) => P::B(-p),
                    (P::B(p), true) => P::B(-p.clone()),
                    (P::N(p), false) => P::N(-p),
                    (P::N(p), true) => P::N(-p.clone()),
                    _ => unreachable!(),
                };
                o.m = m_neg(&s.m, q);
            }
            (Op::MulNtt(c, f), P::N(p)) => {
                let k = &l.consts[*c];
                o.p = P::N(if *f == 0 {
                    p * &k.3
                } else {
                    let mut x = p.clone();
                    x *= &k.3;
                    x
                });
                o.m = m_mul(&s.m, &k.0, q);
                o.may &= k.1;
            }
            (Op::MulShoup(c, f), P::N(p)) => {
                let k = &l.consts[*c];
                o.p = P::N(if *f == 0 {
                    p * &k.4
                } else {
                    let mut x = p.clone();
                    x *= &k.4;
                    x
                });
                o.m = m_mul(&s.m, &k.0, q);
                o.may &= k.1;
            }
            (Op::IntoMul(c), P::S(p)) => {
                let k = &l.consts[*c];
                o.p = P::N(&k.3 * p);
                o.m = m_mul(&s.m, &k.0, q);
                o.may &= k.1;
            }
            (Op::LazyMul(c), P::S(p)) => {
                let k = &l.lazy[*c];
                o.p = P::N(&k.2 * p);
                o.m = m_mul(&s.m, &k.1, q);
            }
            (Op::Scal(k, f), _) => {
                let b = &l.scal[*k];
                o.p = match (&s.p, f) {
                    (P::B(p), 0) => P::B(p * b),
                    (P::B(p), 1) => P::B(b * p),
                    (P::B(p), _) => {
                        let mut x = p.clone();
                        x *= b;
                        P::B(x)
                    }
                    (P::N(p), 0) => P::N(p * b),
                    (P::N(p), 1) => P::N(b * p),
                    (P::N(p), _) => {
                        let mut x = p.clone();
                        x *= b;
                        P::N(x)
                    }
                    _ => unreachable!(),
                };
                o.m = m_scal(&s.m, b, q);
            }
            (Op::Subst(e), _) => {
                let ex = SubstitutionExponent::new(&l.ctx, *e).map_err(|x| format!("exponent {e} refused: {x}"))?;
                o.p = match &s.p {
                    P::B(p) => P::B(p.substitute(&ex).map_err(|x| x.to_string())?),
                    P::N(p) => P::N(p.substitute(&ex).map_err(|x| x.to_string())?),
                    P::S(p) => P::S(p.substitute(&ex).map_err(|x| x.to_string())?),
                };
                o.m = m_subst(&s.m, *e, q);
            }
            (Op::InvPow(k), P::B(p)) => {
                let mut x = p.clone();
                x.multiply_inverse_power_of_x(*k).map_err(|x| x.to_string())?;
                o.p = P::B(x);
                o.m = m_invpow(&s.m, *k, q);
            }
            (Op::ToPb, _) => {
                o.p = P::B(match &s.p {
                    P::B(p) => p.to_power_basis(),
                    P::N(p) => p.to_power_basis(),
                    P::S(p) => p.to_power_basis(),
                });
            }
            (Op::IntoPb, P::N(p)) => o.p = P::B(p.clone().into_power_basis()),
            (Op::IntoPb, P::S(p)) => o.p = P::B(p.clone().into_power_basis()),
            (Op::IntoNtt, P::B(p)) => o.p = P::N(p.clone().into_ntt()),
            (Op::IntoNtt, P::S(p)) => o.p = P::N(p.clone().into_ntt()),
            (Op::IntoShoup, P::B(p)) => o.p = P::S(p.clone().into_ntt_shoup()),
            (Op::IntoShoup, P::N(p)) => o.p = P::S(p.clone().into_ntt_shoup()),
            (Op::Allow, _) => {
                match &mut o.p {
                    P::B(p) => p.allow_variable_time_computations(vt()),
                    P::N(p) => p.allow_variable_time_computations(vt()),
                    P::S(p) => p.allow_variable_time_computations(vt()),
                }
                o.may = true;
            }
            (Op::Disallow, _) => {
                match &mut o.p {
                    P::B(p) => p.disallow_variable_time_computations(),
                    P::N(p) => p.disallow_variable_time_computations(),
                    P::S(p) => p.disallow_variable_time_computations(),
                }
                o.may = false;
            }
            (Op::Down, P::B(p)) => {
                let mut x = p.clone();
                let r = x.switch_down();
                if s.lvl + 1 == self.lv.len() {
                    if r.is_ok() || &x != p {
                        return Err("switch_down at the last level did not fail cleanly".into());
                    }
                } else {
                    r.map_err(|x| x.to_string())?;
                    o.lvl += 1;
                    o.m = m_down(&s.m, q);
                    if x.ctx() != &self.lv[o.lvl].ctx {
                        return Err("wrong context after switch_down".into());
                    }
                    o.p = P::B(x);
                }
            }
            (Op::Wire, _) => {
                o.p = match &s.p {
                    P::B(p) => P::B(Poly::from_bytes(&p.to_bytes(), &l.ctx).map_err(|e| e.to_string())?),
                    P::N(p) => P::N(Poly::from_bytes(&p.to_bytes(), &l.ctx).map_err(|e| e.to_string())?),
                    P::S(p) => P::S(Poly::from_bytes(&p.to_bytes(), &l.ctx).map_err(|e| e.to_string())?),
                };
                o.may = false;
            }
            _ => unreachable!(),
        }
        if s.p.rows() != before {
            return Err("a borrowed operand changed".into());
        }
        Ok(o)
    }
    fn canon(&self, s: &St) -> u128 {
        h128(&(s.p.rows(), s.p.tag(), s.p.vt(), s.lvl, &s.m, s.may))
    }
    fn check(&self, s: &St) -> Result<u64, String> {
        let l = &self.lv[s.lvl];
        if s.p.vt() && !s.may {
            return Err("the result carries the variable-time permission although an operand did not".into());
        }
        if self.mode == Mode::Flags {
            return Ok(0);
        }
        let got = s.p.rows();
        for (i, r) in got.iter().enumerate() {
            if r.len() != self.n || r.iter().any(|x| *x >= l.q[i]) {
                return Err(format!("row {i} is not reduced or has the wrong length: {r:?}"));
            }
        }
        if got.len() != l.q.len() {
            return Err("wrong number of residues".into());
        }
        let fresh = pb(&l.ctx, &s.m, false);
        let ok = match &s.p {
            P::B(p) => p == &fresh && got == s.m,
            P::N(p) => p == &fresh.clone().into_ntt() && coeffs(&p.to_power_basis()) == s.m,
            P::S(p) => p == &fresh.clone().into_ntt_shoup() && coeffs(&p.to_power_basis()) == s.m,
        };
        if !ok {
            return Err(format!(
                "polynomial is {:?}, expected {:?}",
                match &s.p {
                    P::B(p) => coeffs(p),
                    P::N(p) => coeffs(&p.to_power_basis()),
                    P::S(p) => coeffs(&p.to_power_basis()),
                },
                s.m
            ));
        }
        if self.mode == Mode::Wire {
            return self.wire(s);
        }
        if let P::B(p) = &s.p {
            let v = Vec::<u64>::try_from(p).map_err(|e| e.to_string())?;
            if v != flat(&s.m) {
                return Err("Vec<u64> conversion differs".into());
            }
        }
        Ok(1)
    }
}
impl PolyM {
    fn wire(&self, s: &St) -> Result<u64, String> {
        let l = &self.lv[s.lvl];
        let (b, oks) = match &s.p {
            P::B(p) => (p.to_bytes(), Poly::<PowerBasis>::from_bytes(&p.to_bytes(), &l.ctx).map(|x| (&x == p, x.allows_variable_time_computations(), x.to_bytes()))),
            P::N(p) => (p.to_bytes(), Poly::<Ntt>::from_bytes(&p.to_bytes(), &l.ctx).map(|x| (&x == p, x.allows_variable_time_computations(), x.to_bytes()))),
            P::S(p) => (p.to_bytes(), Poly::<NttShoup>::from_bytes(&p.to_bytes(), &l.ctx).map(|x| (&x == p, x.allows_variable_time_computations(), x.to_bytes()))),
        };
        match oks {
            Err(e) => return Err(format!("own encoding refused: {e}")),
            Ok((eq, f, b2)) => {
                if !eq || b2 != b {
                    return Err("serialisation round trip changed the polynomial".into());
                }
                if f {
                    return Err("bytes granted the variable-time permission".into());
                }
            }
        }
        let t = s.p.tag();
        let acc = [Poly::<PowerBasis>::from_bytes(&b, &l.ctx).is_ok(), Poly::<Ntt>::from_bytes(&b, &l.ctx).is_ok(), Poly::<NttShoup>::from_bytes(&b, &l.ctx).is_ok()];
        for (i, a) in acc.iter().enumerate() {
            if *a != (i as u8 == t) {
                return Err(format!("encoding of representation {t} read as representation {i}: accepted = {a}"));
            }
        }
        Ok(5)
    }
}

pub fn contexts(t: bool) -> Vec<(Vec<u64>, usize)> {
    let p62 = ntt_primes(62, 64, 3);
    let p61 = ntt_primes(61, 64, 1);
    let mut v = vec![(vec![17], 8), (vec![17, p62[0], 97], 8), (vec![p62[0], p62[1]], 8), (vec![97, 193], 16)];
    if t {
        v.extend([(vec![p62[0]], 8), (vec![p61[0], 113, 241, p62[2]], 8), (vec![p62[0], p62[1], 193], 32)]);
    }
    v
}

pub fn a04(r: &Rep) {
    let t = r.thorough;
    r.assume("raw residue rows handed to the conversions are reduced; lazily reduced polynomials are only used as left factors of NttShoup products (documented)");
    for (m, n) in contexts(t) {
        let depth = if t { 4 } else { 3 };
        let depth = if n > 8 || m.len() > 3 { depth - 1 } else { depth };
        r.suite(&format!("history-n{n}-{m:?}"), &format!("all operation histories of depth {depth} over every operation form, constants {{-1.., monomial, dense}} in both timing modes, every odd automorphism, inverse powers, representation and level changes; N={n}, moduli {m:?}"), |s| {
            let pm = PolyM::new(&m, n, Mode::Arith, t || depth < 3);
            bfs(s, &pm, pm.inits(), depth, 3_000_000);
        });
    }
    r.suite("products", "every pair of monomials c x^i * d x^j (c,d in {1,q-1}), in Ntt, NttShoup and lazy form, N in {8,16,32,64}, mixed moduli", |s| {
        let items: Vec<(Vec<u64>, usize)> = [8usize, 16, 32, 64].iter().map(|n| { let p = ntt_primes(62, 128, 2); (vec![257, p[0], 769], *n) }).collect();
        s.par(&items, |(q, n)| {
            let ctx = Context::new_arc(q, *n).unwrap();
            let mono = |i: usize, neg: bool| -> Rows { q.iter().map(|p| (0..*n).map(|j| if j == i { if neg { p - 1 } else { 1 } } else { 0 }).collect()).collect() };
            let mut k = 0;
            for i in 0..*n {
                for ni in [false, true] {
                    let a = mono(i, ni);
                    let an = pb(&ctx, &a, false).into_ntt();
                    let mut av = an.clone();
                    av.allow_variable_time_computations(vt());
                    for j in 0..*n {
                        let neg = ni ^ (i + j >= *n);
                        let b = mono(j, false);
                        let w = mono((i + j) % n, neg);
                        let bn = pb(&ctx, &b, true).into_ntt();
                        let bs = bn.clone().into_ntt_shoup();
                        let raw: Vec<u64> = (0..*n).map(|x| u64::from(x == j)).collect();
                        let bl = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&raw, &ctx, vt());
                        let ash = an.clone().into_ntt_shoup();
                        for (f, p) in [&an * &bn, &av * &bn, &an * &bs, &av * &bs, &bl * &ash].into_iter().enumerate() {
                            if coeffs(&p.into_power_basis()) != w {
                                s.fail(&format!("n={n} i={i} neg={ni} j={j} form={f}"), "wrong product of monomials");
                            }
                            k += 1;
                        }
                    }
                }
            }
            s.outcome(*n as u64);
            s.cases(k);
            s.states(k);
            s.transitions(k);
        });
    });
    r.suite("producers", "every way of obtaining a polynomial in each representation (conversions from arrays, slices, integers and bytes, constructors, representation changes, products, dot products, automorphisms, switching, scaling) x every consuming operation in both operand positions x permissions; N in {8,16}, 1 to 3 moduli", |s| {
        let p62 = ntt_primes(62, 64, 3);
        for (q, n) in [(vec![97u64, p62[0]], 8usize), (vec![p62[1], 193, p62[2]], 16), (vec![p62[0]], 8)] {
            let ctx = Context::new_arc(&q, n).unwrap();
            let ex: Vec<u64> = q.iter().copied().chain([257]).collect();
            let big = Context::new_arc(&ex, n).unwrap();
            let mut l = Lcg(n as u64 + q.len() as u64);
            let qq = prod(&q);
            let x: Rows = q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect();
            let y: Rows = q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect();
            let cols = |r: &Rows| -> Vec<BigUint> { (0..n).map(|j| crt(&r.iter().map(|v| v[j]).collect::<Vec<_>>(), &q)).collect() };
            let kinds = 19;
            for kind in 0..kinds {
                for v in [false, true] {
                    s.case(&format!("q={q:?} n={n} producer={kind} vt={v}"), || {
                        let e = |e: fhe_math::Error| e.to_string();
                        let base = pb(&ctx, &x, v);
                        let bn = base.clone().into_ntt();
                        let one = pb(&ctx, &q.iter().map(|_| (0..n).map(|j| u64::from(j == 0)).collect()).collect(), true).into_ntt();
                        // the polynomial in whichever representation the producer makes
                        let made: P = match kind {
                            0 => P::N(bn.clone()),
                            1 => P::N(Poly::<Ntt>::try_convert_from(flat(&coeffs(&bn)), &ctx, v).map_err(e)?),
                            2 => P::N(Poly::<Ntt>::try_convert_from(Array2::from_shape_vec((q.len(), n), flat(&coeffs(&bn))).unwrap(), &ctx, v).map_err(e)?),
                            3 => P::N(Poly::<Ntt>::try_convert_from(&flat(&coeffs(&bn))[..], &ctx, v).map_err(e)?),
                            4 => P::N(Poly::<Ntt>::try_convert_from(&cols(&x)[..], &ctx, v).map_err(e)?),
                            5 => P::N(Poly::<Ntt>::from_bytes(&bn.to_bytes(), &ctx).map_err(e)?),
                            6 => P::N(bn.clone().into_ntt_shoup().into_ntt()),
                            7 => P::N(dot_product([bn.clone()].iter(), [one.clone()].iter()).map_err(e)?),
                            8 => P::N(bn.substitute(&SubstitutionExponent::new(&ctx, 1).map_err(e)?).map_err(e)?),
                            9 => P::N(bn.switch(&Switcher::new(&ctx, &ctx).map_err(e)?).map_err(e)?),
                            10 => {
                                // 257 x, switched down, is x
                                let rows: Rows = ex.iter().map(|p| cols(&x).iter().map(|c| ((c * 257u32) % *p).to_u64().unwrap()).collect()).collect();
                                let mut z = pb(&big, &rows, v);
                                z.switch_down().map_err(e)?;
                                P::B(z)
                            }
                            11 => P::N(&bn * &one.clone().into_ntt_shoup()),
                            12 => P::S(Poly::<NttShoup>::try_convert_from(Array2::from_shape_vec((q.len(), n), flat(&coeffs(&bn))).unwrap(), &ctx, v).map_err(e)?),
                            13 => P::S(Poly::<NttShoup>::try_convert_from(flat(&coeffs(&bn)), &ctx, v).map_err(e)?),
                            14 => P::S(Poly::<NttShoup>::from_bytes(&bn.clone().into_ntt_shoup().to_bytes(), &ctx).map_err(e)?),
                            15 => P::S(Poly::<NttShoup>::try_convert_from(&cols(&x)[..], &ctx, v).map_err(e)?),
                            16 => P::B(Poly::<PowerBasis>::from_bytes(&base.to_bytes(), &ctx).map_err(e)?),
                            17 => P::B(Poly::<PowerBasis>::try_convert_from(&cols(&x)[..], &ctx, v).map_err(e)?),
                            _ => P::S(base.clone().into_ntt_shoup()),
                        };
                        let same = match &made {
                            P::B(p) => coeffs(p) == x && *p == { let mut b = base.clone(); if !p.allows_variable_time_computations() { b.disallow_variable_time_computations() } b },
                            P::N(p) => coeffs(&p.clone().into_power_basis()) == x && *p == { let mut b = bn.clone(); if !p.allows_variable_time_computations() { b.disallow_variable_time_computations() } b },
                            P::S(p) => coeffs(&p.clone().into_power_basis()) == x && *p == { let mut b = bn.clone().into_ntt_shoup(); if !p.allows_variable_time_computations() { b.disallow_variable_time_computations() } b },
                        };
                        if !same {
                            return Err("not equal to the polynomial it was made from".into());
                        }
                        let sc = &qq - 5u32;
                        let mut k = 0u64;
                        for w in [false, true] {
                            let yb = pb(&ctx, &y, w);
                            let yn = yb.clone().into_ntt();
                            let ys = yn.clone().into_ntt_shoup();
                            let mut out: Vec<(&str, Rows, Rows)> = vec![];
                            let back = |p: Poly<Ntt>| coeffs(&p.into_power_basis());
                            match &made {
                                P::B(p) => {
                                    out.push(("x+y", coeffs(&(p + &yb)), m_add(&x, &y, &q)));
                                    out.push(("y+x", coeffs(&(yb.clone() + p.clone())), m_add(&x, &y, &q)));
                                    out.push(("x-y", coeffs(&(p - &yb)), m_sub(&x, &y, &q)));
                                    out.push(("y-x", coeffs(&(&yb - p)), m_sub(&y, &x, &q)));
                                    out.push(("-x", coeffs(&-p), m_neg(&x, &q)));
                                    out.push(("x*c", coeffs(&(p * &sc)), m_scal(&x, &sc, &q)));
                                    out.push(("ntt", back(p.clone().into_ntt()), x.clone()));
                                    out.push(("shoup", coeffs(&p.clone().into_ntt_shoup().into_power_basis()), x.clone()));
                                    out.push(("bytes", coeffs(&Poly::<PowerBasis>::from_bytes(&p.to_bytes(), &ctx).map_err(e)?), x.clone()));
                                    out.push(("subst", coeffs(&p.substitute(&SubstitutionExponent::new(&ctx, 3).map_err(e)?).map_err(e)?), m_subst(&x, 3, &q)));
                                }
                                P::N(p) => {
                                    out.push(("x+y", back(p + &yn), m_add(&x, &y, &q)));
                                    out.push(("y+x", back(yn.clone() + p.clone()), m_add(&x, &y, &q)));
                                    out.push(("x-y", back(p - &yn), m_sub(&x, &y, &q)));
                                    out.push(("y-x", back(&yn - p), m_sub(&y, &x, &q)));
                                    out.push(("x*y", back(p * &yn), m_mul(&x, &y, &q)));
                                    out.push(("y*x", back(&yn * p), m_mul(&x, &y, &q)));
                                    out.push(("x*ys", back(p * &ys), m_mul(&x, &y, &q)));
                                    out.push(("y*xs", back(&yn * &p.clone().into_ntt_shoup()), m_mul(&x, &y, &q)));
                                    out.push(("-x", back(-p), m_neg(&x, &q)));
                                    out.push(("x*c", back(p * &sc), m_scal(&x, &sc, &q)));
                                    out.push(("c*x", back(&sc * p), m_scal(&x, &sc, &q)));
                                    out.push(("dot", back(dot_product([p.clone(), yn.clone()].iter(), [yn.clone(), p.clone()].iter()).map_err(e)?), { let z = m_mul(&x, &y, &q); m_add(&z, &z, &q) }));
                                    out.push(("bytes", back(Poly::<Ntt>::from_bytes(&p.to_bytes(), &ctx).map_err(e)?), x.clone()));
                                    out.push(("subst", back(p.substitute(&SubstitutionExponent::new(&ctx, 3).map_err(e)?).map_err(e)?), m_subst(&x, 3, &q)));
                                }
                                P::S(p) => {
                                    out.push(("y*x", back(&yn * p), m_mul(&x, &y, &q)));
                                    let mut z = yn.clone();
                                    z *= p;
                                    out.push(("y*=x", back(z), m_mul(&x, &y, &q)));
                                    out.push(("ntt*y", back(&p.clone().into_ntt() * &yn), m_mul(&x, &y, &q)));
                                    out.push(("bytes", coeffs(&Poly::<NttShoup>::from_bytes(&p.to_bytes(), &ctx).map_err(e)?.into_power_basis()), x.clone()));
                                    let g = p.substitute(&SubstitutionExponent::new(&ctx, 3).map_err(e)?).map_err(e)?;
                                    out.push(("subst*y", back(&yn * &g), m_mul(&m_subst(&x, 3, &q), &y, &q)));
                                }
                            }
                            for (name, g, want) in out {
                                if g != want {
                                    return Err(format!("{name}: {g:?} instead of {want:?}"));
                                }
                                k += 1;
                            }
                        }
                        s.outcome(h64(&(&q, kind, v)));
                        Ok(k)
                    });
                }
            }
        }
    });
    let degs: Vec<usize> = if t { vec![128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { vec![256, 1024, 4096, 16384, 65536] };
    r.suite("large-degrees", &format!("N in {degs:?}: dense products against the schoolbook product, the rotation, conjugation and expansion automorphisms in every representation, inverse powers, switching down; dense and extreme coefficients, 62-bit and mixed moduli"), |s| {
        let mut items = vec![];
        for n in degs.iter().rev() {
            let p = ntt_primes(62, 2 * *n as u64, 2);
            let m = ntt_primes(30, 2 * *n as u64, 1);
            for pat in 0..3 {
                items.push((*n, vec![p[0], m[0], p[1]], pat));
            }
        }
        s.par(&items, |(n, q, pat)| {
            s.case(&format!("n={n} pattern={pat}"), || {
                let e = |e: fhe_math::Error| e.to_string();
                let (n, ctx) = (*n, Context::new_arc(q, *n).unwrap());
                let mut l = Lcg(n as u64 * 3 + pat);
                let mut mk = |sw: bool| -> Rows { q.iter().map(|p| (0..n).map(|j| match pat { 0 => p - 1, 1 => if (j % 3 == 0) ^ sw { p - 1 } else { j as u64 % p }, _ => l.below(*p) }).collect()).collect() };
                let (x, y) = (mk(false), mk(true));
                let (px, py) = (pb(&ctx, &x, false), pb(&ctx, &y, true));
                let (nx, ny) = (px.clone().into_ntt(), py.clone().into_ntt());
                let w = m_mul(&x, &y, q);
                let mut k = 0;
                let mut vx = nx.clone();
                vx.allow_variable_time_computations(vt());
                for (name, p) in [("ntt", &nx * &ny), ("ntt-vt", &vx * &ny), ("shoup", &nx * &ny.clone().into_ntt_shoup()), ("shoup-vt", &vx * &ny.clone().into_ntt_shoup()), ("dot", dot_product([nx.clone()].iter(), [ny.clone()].iter()).map_err(e)?)] {
                    if coeffs(&p.into_power_basis()) != w {
                        return Err(format!("wrong product ({name})"));
                    }
                    k += 1;
                }
                let mut exps: Vec<usize> = (0..=n.ilog2()).map(|i| (n >> i) + 1).filter(|e| e % 2 == 1).collect();
                exps.extend([3, 9, 2 * n - 1, 2 * n - 3, n - 1, 3 * n + 5]);
                let mut g = 3usize;
                for _ in 1..n.ilog2() {
                    g = g * g % (2 * n);
                    exps.push(g);
                }
                for ex in exps {
                    let w = m_subst(&x, ex, q);
                    let se = SubstitutionExponent::new(&ctx, ex).map_err(e)?;
                    if coeffs(&px.substitute(&se).map_err(e)?) != w || coeffs(&nx.substitute(&se).map_err(e)?.into_power_basis()) != w || coeffs(&nx.clone().into_ntt_shoup().substitute(&se).map_err(e)?.into_power_basis()) != w {
                        return Err(format!("wrong automorphism X -> X^{ex}"));
                    }
                    k += 3;
                }
                for ex in [0, 1, n / 2, n - 1, n, n + 1, 2 * n - 1] {
                    let mut z = px.clone();
                    let ok = z.multiply_inverse_power_of_x(ex).is_ok();
                    if ok && coeffs(&z) != m_invpow(&x, ex, q) || !ok && ex < n {
                        return Err(format!("wrong product by X^-{ex}"));
                    }
                    k += 1;
                }
                let mut z = px.clone();
                let mut zv = py.clone();
                let (mut wz, mut wv, mut qs) = (x.clone(), y.clone(), q.clone());
                while qs.len() > 1 {
                    z.switch_down().map_err(e)?;
                    zv.switch_down().map_err(e)?;
                    (wz, wv) = (m_down(&wz, &qs), m_down(&wv, &qs));
                    qs.pop();
                    if coeffs(&z) != wz || coeffs(&zv) != wv {
                        return Err(format!("wrong switch down to {} moduli", qs.len()));
                    }
                    k += 2;
                }
                s.outcome(h64(&w));
                Ok(k)
            });
        });
    });
    r.suite("substitutions", "every exponent 0..=6N on every basis monomial and dense polynomials in all representations for N in {8,16,32}; even exponents and exponents of a foreign degree are refused", |s| {
        for n in [8usize, 16, 32] {
            let q = vec![193, ntt_primes(62, 64, 1)[0]];
            let ctx = Context::new_arc(&q, n).unwrap();
            let other = Context::new_arc(&q, if n == 8 { 16 } else { 8 }).unwrap();
            let mut ps: Vec<Rows> = (0..n).map(|i| q.iter().map(|_| (0..n).map(|j| u64::from(i == j)).collect()).collect()).collect();
            let mut l = Lcg(5);
            ps.push(q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect());
            for e in 0..=6 * n {
                s.case(&format!("n={n} e={e}"), || {
                    let ex = SubstitutionExponent::new(&ctx, e);
                    if e % 2 == 0 {
                        return if ex.is_ok() { Err("even exponent accepted".into()) } else { Ok(1) };
                    }
                    let ex = ex.map_err(|x| x.to_string())?;
                    let foreign = SubstitutionExponent::new(&other, e).map_err(|x| x.to_string())?;
                    for a in &ps {
                        let w = m_subst(a, e, &q);
                        let p = pb(&ctx, a, e % 4 == 1);
                        if coeffs(&p.substitute(&ex).map_err(|x| x.to_string())?) != w {
                            return Err(format!("power basis: wrong image of {a:?}"));
                        }
                        if coeffs(&p.clone().into_ntt().substitute(&ex).map_err(|x| x.to_string())?.into_power_basis()) != w {
                            return Err(format!("ntt: wrong image of {a:?}"));
                        }
                        let sh = p.clone().into_ntt_shoup().substitute(&ex).map_err(|x| x.to_string())?;
                        if sh != pb(&ctx, &w, false).into_ntt_shoup() {
                            return Err(format!("shoup: wrong image of {a:?}"));
                        }
                        // an exponent made for another degree must not be combined silently
                        for r in [guard(|| p.substitute(&foreign).is_ok()), guard(|| p.clone().into_ntt().substitute(&foreign).is_ok())] {
                            if let Ok(true) = r {
                                return Err(format!("exponent {e} made for another degree accepted at degree {n}"));
                            }
                        }
                    }
                    s.outcome(h64(&m_subst(&ps[1], e, &q)));
                    Ok(3 * ps.len() as u64)
                });
            }
        }
    });
    r.suite("conversions", "vectors of every length 0..=3N*moduli, of small, unreduced and extreme values, from u64, i64, BigUint and arrays, both timings: accepted lengths convert to exactly the residues, others are errors", |s| {
        for (q, n) in [(vec![17u64], 8usize), (vec![17, 97], 8), (vec![97, ntt_primes(62, 64, 1)[0], 193], 16)] {
            let ctx = Context::new_arc(&q, n).unwrap();
            let qq = prod(&q);
            for len in 0..=3 * n * q.len() {
                for pat in 0..4u64 {
                    for v in [false, true] {
                        s.case(&format!("q={q:?} n={n} len={len} pat={pat} vt={v}"), || {
                            let mut l = Lcg(len as u64 * 4 + pat);
                            let raw: Vec<u64> = (0..len).map(|i| match pat { 0 => i as u64 % 17, 1 => u64::MAX - i as u64, 2 => q[0] + i as u64, _ => l.next() }).collect();
                            let rows_short = || -> Rows { q.iter().map(|p| (0..n).map(|i| raw.get(i).map_or(0, |x| x % p)).collect()).collect() };
                            let g = Poly::<PowerBasis>::try_convert_from(raw.clone(), &ctx, v);
                            let g2 = Poly::<PowerBasis>::try_convert_from(&raw[..], &ctx, v);
                            let full: bool = len == n * q.len() && q.len() > 1;
                            if len <= n || full {
                                if full && rows_of(&raw, n).iter().zip(&q).any(|(r, p)| r.iter().any(|x| x >= p)) {
                                    // full residue rows are a precondition of the caller
                                    return Ok(0);
                                }
                                let w = if len <= n { rows_short() } else { rows_of(&raw, n) };
                                let (g, g2) = (g.map_err(|e| e.to_string())?, g2.map_err(|e| e.to_string())?);
                                if coeffs(&g) != w || g != g2 || g.allows_variable_time_computations() != v {
                                    return Err(format!("u64 vector {raw:?} became {:?}", coeffs(&g)));
                                }
                                s.outcome(h64(&w));
                            } else if g.is_ok() || g2.is_ok() {
                                return Err(format!("{len} coefficients accepted"));
                            }
                            if len != n * q.len() && (Poly::<Ntt>::try_convert_from(raw.clone(), &ctx, v).is_ok() || Poly::<NttShoup>::try_convert_from(raw.clone(), &ctx, v).is_ok()) {
                                return Err(format!("{len} values accepted as a transformed polynomial"));
                            }
                            // signed
                            let sg: Vec<i64> = (0..len).map(|i| match pat { 0 => i as i64 - 5, 1 => i64::MIN + i as i64, 2 => i64::MAX - i as i64, _ => l.next() as i64 }).collect();
                            match Poly::<PowerBasis>::try_convert_from(&sg[..], &ctx, v) {
                                Ok(p) if len <= n => {
                                    let w: Rows = q.iter().map(|m| (0..n).map(|i| sg.get(i).map_or(0, |x| (*x as i128).rem_euclid(*m as i128) as u64)).collect()).collect();
                                    if coeffs(&p) != w || p.allows_variable_time_computations() != v {
                                        return Err(format!("i64 vector {sg:?} became {:?}", coeffs(&p)));
                                    }
                                }
                                Ok(_) => return Err(format!("{len} signed coefficients accepted")),
                                Err(_) if len > n => {}
                                Err(e) => return Err(format!("signed refused: {e}")),
                            }
                            // big
                            let bg: Vec<BigUint> = (0..len).map(|i| match pat { 0 => BigUint::from(i), 1 => &qq * 3u32 - (i + 1), 2 => &qq + i, _ => (BigUint::from(l.next()) << 70usize) + l.next() }).collect();
                            match Poly::<PowerBasis>::try_convert_from(&bg[..], &ctx, v) {
                                Ok(p) if len <= n => {
                                    let w: Rows = q.iter().map(|m| (0..n).map(|i| bg.get(i).map_or(0, |x| (x % *m).to_u64().unwrap())).collect()).collect();
                                    if coeffs(&p) != w {
                                        return Err("BigUint vector converted wrongly".into());
                                    }
                                    let back = Vec::<BigUint>::from(&p);
                                    if back.len() != n || (0..n).any(|i| back[i] != bg.get(i).map_or(BigUint::zero(), |x| x % &qq)) {
                                        return Err("BigUint vector not recovered".into());
                                    }
                                    if Poly::<Ntt>::try_convert_from(&bg[..], &ctx, v).map_err(|e| e.to_string())?.into_power_basis() != p || Poly::<NttShoup>::try_convert_from(&bg[..], &ctx, v).map_err(|e| e.to_string())?.into_power_basis() != p {
                                        return Err("BigUint conversions disagree between representations".into());
                                    }
                                }
                                Ok(_) => return Err(format!("{len} big coefficients accepted")),
                                Err(_) if len > n => {}
                                Err(e) => return Err(format!("big refused: {e}")),
                            }
                            Ok(5)
                        });
                    }
                }
            }
            for (a, b) in [(0usize, 0usize), (q.len(), n - 1), (q.len() + 1, n), (n, q.len()), (q.len(), 2 * n)] {
                s.case(&format!("shape {a}x{b} for {}x{n}", q.len()), || {
                    let z = Array2::<u64>::zeros((a, b));
                    if Poly::<PowerBasis>::try_convert_from(z.clone(), &ctx, false).is_ok() || Poly::<Ntt>::try_convert_from(z.clone(), &ctx, false).is_ok() || Poly::<NttShoup>::try_convert_from(z, &ctx, false).is_ok() {
                        return Err("wrong shape accepted".into());
                    }
                    Ok(3)
                });
            }
        }
    });
    crate::a_shapes::a04_shapes(r);
}

// ------------------------------------------------------------------------------------------ A05
fn pack_all(q: &[u64], n: usize, x0: u64) -> (Rows, Vec<BigUint>) {
    let qq = prod(q);
    let xs: Vec<BigUint> = (0..n as u64).map(|i| BigUint::from(x0 + i) % &qq).collect();
    (q.iter().map(|p| xs.iter().map(|x| (x % *p).to_u64().unwrap()).collect()).collect(), xs)
}
fn to_rows(xs: &[BigUint], q: &[u64]) -> Rows {
    q.iter().map(|p| xs.iter().map(|x| (x % *p).to_u64().unwrap()).collect()).collect()
}

pub fn a05(r: &Rep) {
    let t = r.thorough;
    r.assume("rounding conventions as in A03");
    let lists: Vec<Vec<u64>> = if t { vec![vec![17, 97], vec![97, 17], vec![17, 97, 113], vec![113, 17, 97], vec![241, 193, 17]] } else { vec![vec![17, 97], vec![97, 17], vec![17, 113], vec![17, 97, 113]] };
    r.suite("switch-down-exhaustive", &format!("every coefficient value below Q for {lists:?} (N=8), both timings, all the way down: exact rounding at each step"), |s| {
        for q in &lists {
            let ctx = Context::new_arc(q, 8).unwrap();
            let qq = prod(q).to_u64().unwrap();
            s.par_n((qq as usize).div_ceil(8), |k| {
                let (rows, xs) = pack_all(q, 8, 8 * k as u64);
                let xs: Vec<u64> = xs.iter().map(|x| x.to_u64().unwrap()).collect();
                for v in [false, true] {
                    let mut p = pb(&ctx, &rows, v);
                    let mut cur = xs.clone();
                    for l in (1..q.len()).rev() {
                        at([xs[0] as u128, l as u128, v as u128, 0, 0, 0]);
                        let ql = q[l];
                        let rest: u64 = q[..l].iter().product();
                        cur = cur.iter().map(|x| ((x + ql / 2) / ql) % rest).collect();
                        if let Err(e) = p.switch_down() {
                            return s.fail(&format!("{q:?} x0={}", xs[0]), &e.to_string());
                        }
                        let w: Rows = q[..l].iter().map(|m| cur.iter().map(|x| x % m).collect()).collect();
                        if coeffs(&p) != w || p.allows_variable_time_computations() != v {
                            return s.fail(&format!("{q:?} x0={} level {l} vt={v}", xs[0]), &format!("{xs:?} switched to {:?}, expected {w:?}", coeffs(&p)));
                        }
                    }
                    if p.switch_down().is_ok() {
                        s.fail(&format!("{q:?}"), "switched below the last modulus");
                    }
                }
                s.cases(8);
                s.states(8);
                s.transitions(16 * (q.len() as u64 - 1));
            });
            s.outcome(h64(q));
        }
    });
    let p62 = ntt_primes(62, 64, 4);
    let p40 = ntt_primes(40, 64, 2);
    let chains: Vec<Vec<u64>> = vec![vec![p62[0], p62[1]], vec![p62[0], 193], vec![193, p62[0]], vec![p62[0], p62[1], p62[2], p62[3]], vec![p40[0], 193, p62[1], p40[1]], vec![193, 257, p40[0], p62[0]], vec![p62[3], p40[1], 257]];
    r.suite("switch-down-corners", "chains of up to 4 moduli of mixed sizes in every order of magnitude, corner and boundary coefficients (half multiples of each dropped modulus), N in {8,32}", |s| {
        s.par(&chains, |q| {
            for n in [8usize, 32] {
                let ctx = Context::new_arc(q, n).unwrap();
                let qq = prod(q);
                let mut xs = crate::a_rns::corners(&qq, q, if t { 3000 } else { 300 }, 11);
                for l in 1..q.len() {
                    // boundaries (k + 1/2) * (dropped product)
                    let d = prod(&q[l..]);
                    for k in 0..6u32 {
                        let h = (&d >> 1usize) + &d * k;
                        for e in 0..3u32 {
                            xs.push((&h + e) % &qq);
                            xs.push((&qq + &h - e) % &qq);
                            xs.push((&qq * 2u32 - &h - e) % &qq);
                        }
                    }
                }
                for ch in xs.chunks(n) {
                    let mut c = ch.to_vec();
                    c.resize(n, BigUint::zero());
                    for v in [false, true] {
                        let mut p = pb(&ctx, &to_rows(&c, q), v);
                        let mut rows = to_rows(&c, q);
                        for l in (1..q.len()).rev() {
                            rows = m_down(&rows, &q[..=l]);
                            if p.switch_down().is_err() || coeffs(&p) != rows {
                                s.fail(&format!("{q:?} n={n} level {l} x0={}", c[0]), &format!("{c:?} switched to {:?}, expected {rows:?}", coeffs(&p)));
                                break;
                            }
                        }
                        // the same in one call, and through Ntt representation
                        for l in 0..q.len() {
                            let mut z = pb(&ctx, &to_rows(&c, q), v);
                            let target = ctx.context_at_level(l).unwrap();
                            let mut w = to_rows(&c, q);
                            for k in 0..l {
                                w = m_down(&w, &q[..q.len() - k]);
                            }
                            if z.switch_down_to(&target).is_err() || coeffs(&z) != w || z.ctx() != &target {
                                s.fail(&format!("{q:?} n={n} switch_down_to {l}"), "multi-step switch differs from the steps");
                            }
                        }
                    }
                    s.cases(ch.len() as u64);
                    s.states(ch.len() as u64);
                    s.transitions(4 * ch.len() as u64);
                }
                s.outcome(h64(&(q, n)));
            }
        });
    });
    r.suite("navigation", "context_at_level and niterations_to for every pair of contexts among chains, permuted chains and foreign degrees: consistent with the moduli lists; unreachable targets are errors that leave the polynomial unchanged", |s| {
        let mut cs: Vec<(Vec<u64>, usize)> = vec![];
        for q in [vec![17, 97, 113], vec![97, 17, 113], vec![113, 97, 17], vec![17, 97], vec![17], vec![97], vec![17, 97, 113, 193], vec![193, 17]] {
            cs.push((q.clone(), 8));
            if q.iter().all(|x| x % 32 == 1) {
                cs.push((q, 16));
            }
        }
        for (a, n) in &cs {
            let ca = Context::new_arc(a, *n).unwrap();
            for l in 0..a.len() + 3 {
                s.case(&format!("{a:?} n={n} level {l}"), || match ca.context_at_level(l) {
                    Ok(c) if l < a.len() && c.moduli() == &a[..a.len() - l] && c.modulus() == &prod(&a[..a.len() - l]) => {
                        if ca.niterations_to(&c).ok() != Some(l) {
                            return Err("niterations_to does not invert context_at_level".into());
                        }
                        if c.as_ref() != &Context::new(&a[..a.len() - l], *n).unwrap() {
                            return Err("context at a level differs from a fresh context of the same moduli".into());
                        }
                        Ok(3)
                    }
                    Err(_) if l >= a.len() => Ok(1),
                    _ => Err("wrong context".into()),
                });
            }
            for (b, n2) in &cs {
                s.case(&format!("{a:?}/{n} -> {b:?}/{n2}"), || {
                    let cb = Context::new_arc(b, *n2).unwrap();
                    let reach = n == n2 && b.len() <= a.len() && a[..b.len()] == b[..];
                    let got = ca.niterations_to(&cb);
                    if got.is_ok() != reach || (reach && got.unwrap() != a.len() - b.len()) {
                        return Err("wrong distance".into());
                    }
                    let rows: Rows = a.iter().map(|p| (0..*n).map(|j| (j as u64 * 5 + 3) % p).collect()).collect();
                    let p = pb(&ca, &rows, false);
                    let mut z = p.clone();
                    let ok = z.switch_down_to(&cb).is_ok();
                    if ok != reach || (!ok && z != p) {
                        return Err("impossible switch accepted, or polynomial changed by a refused switch".into());
                    }
                    let sw = Switcher::new(&ca, &cb);
                    if sw.is_ok() != (n == n2) {
                        return Err(format!("switcher between degrees {n} and {n2}: ok = {}", sw.is_ok()));
                    }
                    if let Ok(sw) = sw {
                        let foreign = Context::new_arc(&[97, 193], 16).unwrap();
                        if Poly::<PowerBasis>::zero(&foreign).switch(&sw).is_ok() {
                            return Err("switcher applied to a foreign context".into());
                        }
                    }
                    s.outcome(h64(&(a, b, n, n2)));
                    Ok(4)
                });
            }
        }
    });
    let fac: Vec<(u64, u64)> = if t { vec![(1, 1), (2, 1), (1, 2), (3, 7), (7, 3), (17, 97), (65537, 1), (1, 65537), (0, 1), (5, 5), (2, 2)] } else { vec![(1, 1), (2, 1), (1, 2), (3, 7), (17, 97), (5, 5)] };
    r.suite("scaling-exhaustive", &format!("every value below Q (Q <= 10961) between all pairs of 6 small contexts (common prefixes included), factors {fac:?} and modulus switching, power basis and Ntt, both timings"), |s| {
        let cl: Vec<Vec<u64>> = vec![vec![17], vec![97], vec![17, 97], vec![97, 17], vec![17, 113], vec![97, 113]];
        let mut items = vec![];
        for a in &cl {
            for b in &cl {
                items.push((a.clone(), b.clone()));
            }
        }
        s.par(&items, |(a, b)| {
            let (ca, cb) = (Context::new_arc(a, 8).unwrap(), Context::new_arc(b, 8).unwrap());
            let q = prod(a);
            let mut fs: Vec<(BigUint, BigUint)> = fac.iter().map(|(x, y)| (BigUint::from(*x), BigUint::from(*y))).collect();
            fs.push((prod(b), prod(a)));
            for (fi, (num, den)) in fs.iter().enumerate() {
                let sc = Scaler::new(&ca, &cb, ScalingFactor::new(num, den)).unwrap();
                let sw = Switcher::new(&ca, &cb).unwrap();
                for x0 in (0..q.to_u64().unwrap()).step_by(8) {
                    at([x0 as u128, fi as u128, 0, 0, 0, 0]);
                    let (rows, xs) = pack_all(a, 8, x0);
                    let mut w: Rows = vec![vec![0; 8]; b.len()];
                    for (j, x) in xs.iter().enumerate() {
                        // exact oracle (all values here are below 2^20)
                        let y = centre(x, &q);
                        let z = rdiv(&(y * bi(num)), &bi(den));
                        for (i, v) in residues(&z, b).into_iter().enumerate() {
                            w[i][j] = v;
                        }
                    }
                    for v in [false, true] {
                        let p = pb(&ca, &rows, v);
                        let g = p.scale(&sc).unwrap();
                        let h = p.clone().into_ntt().scale(&sc).unwrap();
                        if coeffs(&g) != w || coeffs(&h.to_power_basis()) != w || g.ctx() != &cb || h.coefficients().outer_iter().zip(b).any(|(r, m)| r.iter().any(|x| x >= m)) {
                            s.fail(&format!("{a:?}->{b:?} x {num}/{den} x0={x0} vt={v}"), &format!("gave {:?} / {:?}, expected {w:?}", coeffs(&g), coeffs(&h.into_power_basis())));
                        }
                        if fi + 1 == fs.len() && coeffs(&p.switch(&sw).unwrap()) != w {
                            s.fail(&format!("{a:?}->{b:?} switch x0={x0} vt={v}"), "switch differs from scaling by the ratio of the moduli");
                        }
                    }
                    if s.stop() {
                        return;
                    }
                }
                let k = q.to_u64().unwrap();
                s.cases(k);
                s.states(k);
                s.transitions(4 * k);
            }
            s.outcome(h64(&(a, b)));
        });
    });
    r.suite("scaling-corners", "all pairs of big mixed contexts (common prefixes, permutations, extension and reduction) x factors {1, q'/q, t/q, q/t, 3} x corner coefficients; power basis and Ntt", |s| {
        let mut cl: Vec<Vec<u64>> = chains.clone();
        cl.push(vec![p62[0], p62[1], p62[2]]);
        cl.push(vec![p62[0], p62[2], p40[0]]);
        let mut items = vec![];
        for a in &cl {
            for b in &cl {
                items.push((a.clone(), b.clone()));
            }
        }
        s.par(&items, |(a, b)| {
            let (ca, cb) = (Context::new_arc(a, 8).unwrap(), Context::new_arc(b, 8).unwrap());
            let (q, p) = (prod(a), prod(b));
            let one = BigUint::one();
            let tt = BigUint::from(65537u32);
            for (fi, (num, den)) in [(one.clone(), one.clone()), (p.clone(), q.clone()), (tt.clone(), q.clone()), (q.clone(), tt), (BigUint::from(3u32), one.clone())].iter().enumerate() {
                let sc = Scaler::new(&ca, &cb, ScalingFactor::new(num, den)).unwrap();
                let xs = crate::a_rns::corners(&q, a, if t { 400 } else { 40 }, fi as u64);
                for ch in xs.chunks(8) {
                    let mut c = ch.to_vec();
                    c.resize(8, BigUint::zero());
                    let z = pb(&ca, &to_rows(&c, a), fi % 2 == 0);
                    let g = coeffs(&z.scale(&sc).unwrap());
                    let h = coeffs(&z.clone().into_ntt().scale(&sc).unwrap().into_power_basis());
                    if g != h {
                        s.fail(&format!("{a:?}->{b:?} f{fi} x0={}", c[0]), "scaling differs between representations");
                    }
                    for (j, x) in c.iter().enumerate() {
                        let ok = scale_ok(x, &q, num, den);
                        let got: Vec<u64> = (0..b.len()).map(|i| g[i][j]).collect();
                        if !ok.iter().any(|y| residues(y, b) == got) {
                            s.fail(&format!("{a:?}->{b:?} f{fi} x={x}"), &format!("scaled to {got:?}, expected {:?}", residues(&ok[0], b)));
                        }
                    }
                    s.cases(ch.len() as u64);
                    s.states(ch.len() as u64);
                    s.transitions(2 * ch.len() as u64);
                }
            }
            s.outcome(h64(&(a, b)));
        });
    });
    let degs: Vec<usize> = if t { vec![16, 64, 256, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { vec![64, 1024, 8192, 65536] };
    r.suite("large-degrees", &format!("N in {degs:?} x pairs of mixed contexts (prefix, extension, permutation, disjoint) x factors {{1, q'/q, t/q, q/t}}, corner values spread over all coefficients, power basis and Ntt; switching down a chain"), |s| {
        let mut items = vec![];
        for n in degs.iter().rev() {
            let (p, m, f) = (ntt_primes(62, 2 * *n as u64, 3), ntt_primes(40, 2 * *n as u64, 1)[0], ntt_primes(30, 2 * *n as u64, 1)[0]);
            let lists = [vec![p[0], m, p[1]], vec![p[0], m], vec![f, p[0]], vec![p[2], p[1], f, m]];
            for a in &lists {
                for b in &lists {
                    items.push((*n, a.clone(), b.clone()));
                }
            }
        }
        s.par(&items, |(n, a, b)| {
            let (ca, cb) = (Context::new_arc(a, *n).unwrap(), Context::new_arc(b, *n).unwrap());
            let (q, p) = (prod(a), prod(b));
            let tt = BigUint::from(65537u32);
            for (fi, (num, den)) in [(BigUint::one(), BigUint::one()), (p.clone(), q.clone()), (tt.clone(), q.clone()), (q.clone(), tt)].iter().enumerate() {
                s.case(&format!("n={n} {a:?}->{b:?} factor {fi}"), || {
                    let e = |e: fhe_math::Error| e.to_string();
                    let sc = Scaler::new(&ca, &cb, ScalingFactor::new(num, den)).map_err(e)?;
                    let xs = crate::a_rns::corners(&q, a, 60, fi as u64);
                    let k = xs.len() - 1; // a step that is coprime to most lengths, so that values meet all positions
                    let c: Vec<BigUint> = (0..*n).map(|j| xs[(j * k + j / 7) % xs.len()].clone()).collect();
                    let z = pb(&ca, &to_rows(&c, a), fi % 2 == 0);
                    let g = coeffs(&z.scale(&sc).map_err(e)?);
                    if g != coeffs(&z.clone().into_ntt().scale(&sc).map_err(e)?.into_power_basis()) {
                        return Err("scaling differs between representations".into());
                    }
                    let mut memo: std::collections::HashMap<&BigUint, Vec<Vec<u64>>> = Default::default();
                    for (j, x) in c.iter().enumerate() {
                        let ok = memo.entry(x).or_insert_with(|| scale_ok(x, &q, num, den).iter().map(|y| residues(y, b)).collect());
                        let got: Vec<u64> = (0..b.len()).map(|i| g[i][j]).collect();
                        if !ok.contains(&got) {
                            return Err(format!("coefficient {j} = {x} scaled to {got:?}, expected {:?}", ok[0]));
                        }
                    }
                    s.outcome(h64(&(n, a, b, fi)));
                    Ok(2)
                });
            }
            if a == b {
                s.case(&format!("n={n} {a:?} switching down"), || {
                    let xs = crate::a_rns::corners(&q, a, 60, 9);
                    let mut w = to_rows(&(0..*n).map(|j| xs[(j * 5 + j / 3) % xs.len()].clone()).collect::<Vec<_>>(), a);
                    let mut z = pb(&ca, &w, true);
                    let mut y = z.clone();
                    let mut qs = a.clone();
                    while qs.len() > 1 {
                        z.switch_down().map_err(|e| e.to_string())?;
                        w = m_down(&w, &qs);
                        qs.pop();
                        if coeffs(&z) != w {
                            return Err(format!("wrong switch down to {} moduli", qs.len()));
                        }
                    }
                    let last = ca.context_at_level(a.len() - 1).map_err(|e| e.to_string())?;
                    y.switch_down_to(&last).map_err(|e| e.to_string())?;
                    if coeffs(&y) != w {
                        return Err("wrong switch to the last context".into());
                    }
                    Ok(a.len() as u64)
                });
            }
        });
    });
}

// ------------------------------------------------------------------------------------------ A06
pub fn a06(r: &Rep) {
    let t = r.thorough;
    let ps: Vec<Vec<u64>> = {
        let g = |b: u32| ntt_primes(b, 16, 2);
        let mut v = vec![vec![17], vec![g(62)[0]], vec![g(61)[0]], vec![g(62)[0], 17], vec![17, g(62)[0]], vec![g(61)[0], g(62)[1], 97], vec![g(60)[0], 113]];
        if t {
            v.extend([vec![g(60)[0]], vec![g(59)[0]], vec![g(58)[0], g(62)[0]], vec![g(62)[0], g(62)[1], g(61)[0], g(60)[0]]]);
        }
        v
    };
    let top = if t { 600 } else { 140 };
    r.suite("counts", &format!("every number of terms 0..={top} x 6 extreme coefficient patterns x timing modes, moduli around the 128-bit accumulation threshold (62, 61, 60, .. bits, mixed); small moduli beyond it"), |s| {
        let mut items = vec![];
        for q in &ps {
            for pat in 0..6u64 {
                items.push((q.clone(), pat));
            }
        }
        s.par(&items, |(q, pat)| {
            let n = 8;
            let ctx = Context::new_arc(q, n).unwrap();
            let mut l = Lcg(*pat);
            // transformed-domain values are chosen directly so that every slot is extreme
            let mk = |l: &mut Lcg, i: usize| -> Rows {
                q.iter().map(|p| (0..n).map(|j| match pat {
                    0 => p - 1,
                    1 => if i % 2 == 0 { p - 1 } else { 0 },
                    2 => if j == i % n { p - 1 } else { 0 },
                    3 => if i == 0 { p - 2 } else { p - 1 },
                    4 => (i as u64 + 1) % p,
                    _ => l.below(*p),
                }).collect()).collect()
            };
            let mut xs: Vec<Poly<Ntt>> = vec![];
            let mut ys: Vec<Poly<Ntt>> = vec![];
            let mut acc: Rows = vec![vec![0; n]; q.len()];
            for c in 0..=top {
                for (lab, vx, vy) in [("cc", false, false), ("vv", true, true), ("mix", true, false)] {
                    at([c as u128, *pat as u128, vx as u128, vy as u128, 0, 0]);
                    // toggle the permission of all terms but the last for "mix"
                    for (i, x) in xs.iter_mut().enumerate() {
                        if vx { x.allow_variable_time_computations(vt()) } else { x.disallow_variable_time_computations() }
                        let _ = i;
                    }
                    for (i, y) in ys.iter_mut().enumerate() {
                        if vy || (lab == "mix" && i + 1 < c) { y.allow_variable_time_computations(vt()) } else { y.disallow_variable_time_computations() }
                    }
                    match dot_product(xs.iter(), ys.iter()) {
                        Err(_) if c == 0 => {}
                        Err(e) => s.fail(&format!("{q:?} pat={pat} count={c}"), &e.to_string()),
                        Ok(_) if c == 0 => s.fail(&format!("{q:?}"), "empty dot product accepted"),
                        Ok(d) => {
                            if coeffs(&d) != acc {
                                s.fail(&format!("{q:?} pat={pat} count={c} {lab}"), &format!("gave {:?}, expected {acc:?}", coeffs(&d)));
                            }
                            if d.allows_variable_time_computations() && lab != "vv" {
                                s.fail(&format!("{q:?} pat={pat} count={c} {lab}"), "variable-time permission gained");
                            }
                        }
                    }
                }
                let (a, b) = (mk(&mut l, c), mk(&mut l, c + 1));
                for i in 0..q.len() {
                    for j in 0..n {
                        acc[i][j] = ((acc[i][j] as u128 + mulmod(a[i][j], b[i][j], q[i]) as u128) % q[i] as u128) as u64;
                    }
                }
                let aa = |r: &Rows| Poly::<Ntt>::try_convert_from(flat(r), &ctx, true).unwrap();
                xs.push(aa(&a));
                ys.push(aa(&b));
                if s.stop() {
                    return;
                }
            }
            s.outcome(h64(&acc));
            s.cases(3 * (top as u64 + 1));
            s.states(3 * (top as u64 + 1));
            s.transitions(3 * (top as u64 + 1));
        });
    });
    r.suite("large-degrees", "N in {64, 1024, 8192, 65536} x {1, 3, 17, 40} terms of extreme and mixed polynomials over mixed 62-bit moduli, both timings: equal to the sum of the products of residues", |s| {
        let mut items = vec![];
        for n in [65536usize, 8192, 1024, 64] {
            for k in [40usize, 17, 3, 1] {
                items.push((n, k));
            }
        }
        s.par(&items, |&(n, k)| {
            for pat in 0..2u64 {
                s.case(&format!("n={n} {k} terms pattern {pat}"), || {
                    let p = ntt_primes(62, 2 * n as u64, 2);
                    let q = vec![p[0], ntt_primes(30, 2 * n as u64, 1)[0], p[1]];
                    let ctx = Context::new_arc(&q, n).map_err(|e| e.to_string())?;
                    let mut l = Lcg(n as u64 + pat);
                    let mut mk = |vt_: bool| {
                        let rows: Rows = q.iter().map(|p| (0..n).map(|j| if pat == 0 { p - 1 - (j as u64 % 2) } else { l.below(*p) }).collect()).collect();
                        let a = ndarray::Array2::from_shape_vec((q.len(), n), rows.concat()).unwrap();
                        let x: Poly<Ntt> = Poly::<Ntt>::try_convert_from(a, &ctx, vt_).unwrap();
                        (rows, x)
                    };
                    let xs: Vec<(Rows, Poly<Ntt>)> = (0..k).map(|i| mk(i % 2 == 0)).collect();
                    let ys: Vec<(Rows, Poly<Ntt>)> = (0..k).map(|_| mk(pat == 0)).collect();
                    let g = dot_product(xs.iter().map(|x| &x.1), ys.iter().map(|x| &x.1)).map_err(|e| e.to_string())?;
                    let c = g.coefficients();
                    for (i, m) in q.iter().enumerate() {
                        for j in 0..n {
                            let w = (0..k).fold(0u128, |a, x| (a + mulmod(xs[x].0[i][j], ys[x].0[i][j], *m) as u128) % *m as u128) as u64;
                            if c[[i, j]] != w {
                                return Err(format!("residue {i},{j} is {} instead of {w}", c[[i, j]]));
                            }
                        }
                    }
                    s.outcome(h64(&(n, k, pat)));
                    Ok(1)
                });
            }
        });
    });
    r.suite("ring-values", "0..=6 terms drawn from every tuple of 4 ring elements: equal to the sum of naive negacyclic products; N in {8,16,32} (vector remainders)", |s| {
        for (q, n) in [(vec![17u64, 97], 8usize), (vec![97, ntt_primes(62, 64, 1)[0]], 16), (vec![193, 257], 32)] {
            let ctx = Context::new_arc(&q, n).unwrap();
            let mut l = Lcg(n as u64);
            let el: Vec<Rows> = vec![
                q.iter().map(|p| vec![p - 1; n]).collect(),
                q.iter().map(|p| (0..n).map(|j| if j == n - 1 { p - 1 } else { 0 }).collect()).collect(),
                q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect(),
                q.iter().map(|p| (0..n).map(|_| l.below(*p)).collect()).collect(),
            ];
            let ntt: Vec<Poly<Ntt>> = el.iter().map(|r| pb(&ctx, r, false).into_ntt()).collect();
            let pr: Vec<Vec<Rows>> = el.iter().map(|a| el.iter().map(|b| m_mul(a, b, &q)).collect()).collect();
            for k in 1..=if t { 4 } else { 3 } {
                let ts = all_tuples(16, k);
                s.par(&ts, |tp| {
                    let x: Vec<&Poly<Ntt>> = tp.iter().map(|i| &ntt[i / 4]).collect();
                    let y: Vec<&Poly<Ntt>> = tp.iter().map(|i| &ntt[i % 4]).collect();
                    let mut w: Rows = vec![vec![0; n]; q.len()];
                    for i in tp {
                        w = m_add(&w, &pr[i / 4][i % 4], &q);
                    }
                    s.case(&format!("n={n} {tp:?}"), || {
                        let d = dot_product(x.iter().copied(), y.iter().copied()).map_err(|e| e.to_string())?;
                        if coeffs(&d.into_power_basis()) != w {
                            return Err("differs from the sum of products".into());
                        }
                        Ok(1)
                    });
                });
            }
            s.outcome(n as u64);
        }
    });
    r.suite("iterators", "every pair of lengths 0..=5, {17, 40} x every truthful size hint of either iterator x repeated operands: the sum of the products, or an error exactly for empty or unequal lengths", |s| {
        let q = [ntt_primes(62, 16, 1)[0], 97];
        let ctx = Context::new_arc(&q, 8).unwrap();
        let mut l = Lcg(8);
        let el: Vec<Rows> = (0..40).map(|_| q.iter().map(|p| (0..8).map(|_| l.below(*p)).collect()).collect()).collect();
        let ntt: Vec<Poly<Ntt>> = el.iter().map(|r| Poly::<Ntt>::try_convert_from(flat(r), &ctx, false).unwrap()).collect();
        let mut lens: Vec<(usize, usize)> = (0..=5).flat_map(|a| (0..=5).map(move |b| (a, b))).collect();
        lens.extend([(17, 17), (40, 40), (17, 40), (40, 17)]);
        for (a, b) in lens {
            for h in 0..HINTS * HINTS {
                s.case(&format!("lengths {a},{b} hints {h}"), || {
                    let w: Rows = (0..q.len()).map(|i| (0..8).map(|j| (0..a.min(b)).fold(0u128, |x, k| (x + mulmod(el[k][i][j], el[k / 2][i][j], q[i]) as u128) % q[i] as u128) as u64).collect()).collect();
                    let x = Hint(ntt[..a].iter(), h % HINTS);
                    let y = Hint((0..b).map(|k| &ntt[k / 2]), h / HINTS);
                    match dot_product(x, y) {
                        Ok(d) if a == b && a > 0 => (coeffs(&d) == w).then_some(1).ok_or_else(|| "differs from the sum of products".to_string()),
                        Err(_) if a != b || a == 0 => Ok(1),
                        x => Err(format!("accepted = {}", x.is_ok())),
                    }
                });
            }
        }
        s.outcome(1);
    });
    r.suite("errors", "every pair of lengths 0..=5 and every position of a foreign-context operand", |s| {
        let ctx = Context::new_arc(&[17, 97], 8).unwrap();
        let others = [Context::new_arc(&[17], 8).unwrap(), Context::new_arc(&[97, 17], 8).unwrap(), Context::new_arc(&[97, 193], 16).unwrap(), Context::new_arc(&[17, 97, 113], 8).unwrap()];
        for a in 0..=5usize {
            for b in 0..=5usize {
                s.case(&format!("lengths {a},{b}"), || {
                    let x: Vec<Poly<Ntt>> = (0..a).map(|_| Poly::zero(&ctx)).collect();
                    let y: Vec<Poly<Ntt>> = (0..b).map(|_| Poly::zero(&ctx)).collect();
                    let ok = dot_product(x.iter(), y.iter()).is_ok();
                    if ok != (a == b && a > 0) {
                        return Err(format!("accepted = {ok}"));
                    }
                    Ok(1)
                });
                if a == b {
                    for (oi, o) in others.iter().enumerate() {
                        for pos in 0..2 * a {
                            s.case(&format!("length {a} foreign {oi} at {pos}"), || {
                                let mut x: Vec<Poly<Ntt>> = (0..a).map(|_| Poly::zero(&ctx)).collect();
                                let mut y = x.clone();
                                if pos < a { x[pos] = Poly::zero(o) } else { y[pos - a] = Poly::zero(o) }
                                if dot_product(x.iter(), y.iter()).is_ok() {
                                    return Err("foreign context accepted".into());
                                }
                                Ok(1)
                            });
                        }
                    }
                }
            }
        }
        s.outcome(1);
    });
}

// ------------------------------------------------------------------------------------------ A11
pub fn a11(r: &Rep) {
    let t = r.thorough;
    for (m, n) in [(vec![17u64, 97], 8usize), (vec![97], 16)] {
        let depth = if t { 4 } else { 3 };
        r.suite(&format!("flag-history-n{n}-{m:?}"), &format!("all histories of depth {depth} over every operation, with operands of both permissions, serialisation included: the flag never appears unless every operand had it or allow was called"), |s| {
            let pm = PolyM::new(&m, n, Mode::Flags, true);
            bfs(s, &pm, pm.inits(), depth, 8_000_000);
        });
    }
    r.suite("sources", "zero, random, seeded, small and decoded polynomials start without the permission; conversions and scalings carry exactly what was asked", |s| {
        let q = [17u64, 97];
        let ctx = Context::new_arc(&q, 8).unwrap();
        let down = Context::new_arc(&q[..1], 8).unwrap();
        macro_rules! src {
            ($t:ty, $n:expr) => {
                s.case(concat!("sources ", $n), || {
                    let l: Vec<Poly<$t>> = vec![Poly::zero(&ctx), Poly::random(&ctx, &mut rng(1)), Poly::random_from_seed(&ctx, [7; 32]), Poly::small(&ctx, 3, &mut rng(2)).map_err(|e| e.to_string())?, Poly::default_like(&ctx)];
                    for (i, p) in l.iter().enumerate() {
                        if p.allows_variable_time_computations() {
                            return Err(format!("source {i} carries the permission"));
                        }
                        let mut z = p.clone();
                        z.allow_variable_time_computations(vt());
                        if !z.allows_variable_time_computations() || &z != p || z.to_bytes() != p.to_bytes() {
                            return Err(format!("source {i}: the permission is part of the value"));
                        }
                        if Poly::<$t>::from_bytes(&z.to_bytes(), &ctx).map_err(|e| e.to_string())?.allows_variable_time_computations() {
                            return Err("decoded polynomial carries the permission".into());
                        }
                        z.disallow_variable_time_computations();
                        if z.allows_variable_time_computations() {
                            return Err("permission not revoked".into());
                        }
                    }
                    Ok(l.len() as u64 * 3)
                });
            };
        }
        trait DL: Sized {
            fn default_like(c: &Arc<Context>) -> Self;
        }
        impl<R: fhe_math::rq::RepresentationTag> DL for Poly<R> {
            fn default_like(c: &Arc<Context>) -> Self {
                Poly::zero(c)
            }
        }
        src!(PowerBasis, "pb");
        src!(Ntt, "ntt");
        src!(NttShoup, "shoup");
        for f in [false, true] {
            s.case(&format!("scale/switch vt={f}"), || {
                let p = pb(&ctx, &vec![vec![3; 8], vec![5; 8]], f);
                let sw = Switcher::new(&ctx, &down).map_err(|e| e.to_string())?;
                let up = Scaler::new(&ctx, &ctx, ScalingFactor::one()).map_err(|e| e.to_string())?;
                let outs = [
                    p.switch(&sw).unwrap().allows_variable_time_computations(),
                    p.clone().into_ntt().switch(&sw).unwrap().allows_variable_time_computations(),
                    p.scale(&up).unwrap().allows_variable_time_computations(),
                    { let mut z = p.clone(); z.switch_down().unwrap(); z.allows_variable_time_computations() },
                    { let mut z = p.clone(); z.switch_down_to(&down).unwrap(); z.allows_variable_time_computations() },
                ];
                if !f && outs.iter().any(|x| *x) {
                    return Err(format!("permission gained: {outs:?}"));
                }
                Ok(5)
            });
        }
        s.case("representation getters", || {
            if Poly::<PowerBasis>::zero(&ctx).representation() != Representation::PowerBasis || Poly::<Ntt>::zero(&ctx).representation() != Representation::Ntt || Poly::<NttShoup>::zero(&ctx).representation() != Representation::NttShoup {
                return Err("representation() is wrong".into());
            }
            Ok(3)
        });
        s.outcome(0);
    });
    r.suite("dot-products", "every combination of permissions over 1..=4 pairs: only the all-public one may carry it", |s| {
        let ctx = Context::new_arc(&[17, 97], 8).unwrap();
        for c in 1..=4usize {
            for mask in 0..1u32 << (2 * c) {
                s.case(&format!("c={c} mask={mask:b}"), || {
                    let mk = |b: bool| { let mut p = Poly::<Ntt>::random_from_seed(&ctx, [c as u8; 32]); if b { p.allow_variable_time_computations(vt()) } p };
                    let x: Vec<Poly<Ntt>> = (0..c).map(|i| mk(mask >> i & 1 == 1)).collect();
                    let y: Vec<Poly<Ntt>> = (0..c).map(|i| mk(mask >> (c + i) & 1 == 1)).collect();
                    let d = dot_product(x.iter(), y.iter()).map_err(|e| e.to_string())?;
                    if d.allows_variable_time_computations() && mask + 1 != 1 << (2 * c) {
                        return Err("permission gained".into());
                    }
                    s.outcome(d.allows_variable_time_computations() as u64);
                    Ok(1)
                });
            }
        }
    });
    crate::b_vt::ciphertexts(r);
}

// ------------------------------------------------------------------------------------------ A10
/// Minimal protobuf writer for the Rq message: every field can be set independently.
pub fn pvarint(mut x: u64, o: &mut Vec<u8>) {
    while x >= 0x80 {
        o.push(x as u8 | 0x80);
        x >>= 7;
    }
    o.push(x as u8);
}
pub fn rq_bytes(repr: Option<u64>, degree: Option<u64>, co: Option<&[u8]>, avt: Option<u64>) -> Vec<u8> {
    let mut o = vec![];
    if let Some(r) = repr {
        o.push(1 << 3);
        pvarint(r, &mut o);
    }
    if let Some(d) = degree {
        o.push(2 << 3);
        pvarint(d, &mut o);
    }
    if let Some(c) = co {
        o.push(3 << 3 | 2);
        pvarint(c.len() as u64, &mut o);
        o.extend_from_slice(c);
    }
    if let Some(v) = avt {
        o.push(4 << 3);
        pvarint(v, &mut o);
    }
    o
}

pub fn a10(r: &Rep) {
    let t = r.thorough;
    r.assume("the wire format is the repository's Rq protobuf message (representation, degree, coefficients, allow_variable_time)");
    for (m, n) in contexts(t) {
        let depth = if t { 3 } else { 2 };
        r.suite(&format!("history-n{n}-{m:?}"), &format!("every state of all histories of depth {depth} (representations, levels, operations, previous round trips): equal after a round trip, byte-identical re-encoding, other representations refused"), |s| {
            let pm = PolyM::new(&m, n, Mode::Wire, t);
            bfs(s, &pm, pm.inits(), depth, 3_000_000);
        });
    }
    r.suite("large-degrees", "N in {64, 1024, 8192, 65536} x three modulus lists x representations x {extreme, dense, one-hot at the ends} polynomials: round trip, byte-identical re-encoding, other representations, one byte more or fewer and a wrong degree refused", |s| {
        let mut items = vec![];
        for n in [65536usize, 8192, 1024, 64] {
            let p = |b: u32, k: usize| ntt_primes(b, 2 * n as u64, k);
            for q in [vec![p(62, 1)[0]], vec![p(62, 1)[0], p(30, 1)[0]], vec![p(41, 1)[0], p(62, 2)[1], p(20, 1)[0]]] {
                for pat in 0..3u64 {
                    items.push((n, q.clone(), pat));
                }
            }
        }
        s.par(&items, |(n, q, pat)| {
            s.case(&format!("n={n} {q:?} pattern {pat}"), || {
                let e = |e: fhe_math::Error| e.to_string();
                let (n, ctx) = (*n, Context::new_arc(q, *n).map_err(e)?);
                let mut l = Lcg(n as u64 + pat);
                let rows: Rows = q.iter().map(|p| (0..n).map(|j| match pat { 0 => p - 1, 1 => l.below(*p), _ => if j == 0 || j + 1 == n { p - 1 } else { 0 } }).collect()).collect();
                let a = pb(&ctx, &rows, false);
                let b = a.clone().into_ntt();
                let c = b.clone().into_ntt_shoup();
                macro_rules! trip {
                    ($x:expr, $t:ty, $o1:ty, $o2:ty) => {{
                        let by = $x.to_bytes();
                        let y = Poly::<$t>::from_bytes(&by, &ctx).map_err(e)?;
                        if y.coefficients() != $x.coefficients() || y != $x || y.to_bytes() != by {
                            return Err(concat!("read back differs: ", stringify!($t)).into());
                        }
                        if Poly::<$o1>::from_bytes(&by, &ctx).is_ok() || Poly::<$o2>::from_bytes(&by, &ctx).is_ok() {
                            return Err(concat!("read in another representation: ", stringify!($t)).into());
                        }
                        let mut z = by.clone();
                        z.pop();
                        if Poly::<$t>::from_bytes(&z, &ctx).is_ok() {
                            return Err(concat!("truncated bytes accepted: ", stringify!($t)).into());
                        }
                    }};
                }
                trip!(a, PowerBasis, Ntt, NttShoup);
                trip!(b, Ntt, PowerBasis, NttShoup);
                trip!(c, NttShoup, Ntt, PowerBasis);
                s.outcome(h64(&(n, q, pat)));
                Ok(3)
            });
        });
    });
    // context grid for foreign encodings
    r.suite("foreign-contexts", "the encoding of a polynomial of each of 12 contexts read in each other context and representation: accepted only when degree, residue widths and ranges describe that context; whatever is accepted is fully reduced and canonical", |s| {
        let p62 = ntt_primes(62, 64, 2);
        let cs: Vec<(Vec<u64>, usize)> = vec![(vec![17], 8), (vec![97], 8), (vec![97], 16), (vec![113], 8), (vec![17, 97], 8), (vec![97, 17], 8), (vec![97, 193], 16), (vec![193, 97], 16), (vec![193], 32), (vec![193, 257], 32), (vec![p62[0]], 32), (vec![p62[0], p62[1]], 8)];
        for (a, n) in &cs {
            for (b, n2) in &cs {
                let ca = Context::new_arc(a, *n).unwrap();
                let cb = Context::new_arc(b, *n2).unwrap();
                let mut l = Lcg(9);
                for pat in 0..4 {
                    s.case(&format!("{a:?}/{n} in {b:?}/{n2} pat={pat}"), || {
                        let rows: Rows = a.iter().map(|p| (0..*n).map(|_| match pat { 0 => p - 1, 1 => 0, 2 => l.below(*p), _ => l.below(13) }).collect()).collect();
                        let p = pb(&ca, &rows, false);
                        let w = |x: &u64| 64 - (x - 1).leading_zeros();
                        let fits = n == n2 && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| w(x) == w(y)) && rows.iter().zip(b).all(|(r, m)| r.iter().all(|x| x < m));
                        let (b0, b1, b2) = (p.to_bytes(), p.clone().into_ntt().to_bytes(), p.clone().into_ntt_shoup().to_bytes());
                        let g = Poly::<PowerBasis>::from_bytes(&b0, &cb);
                        // equal total widths in another split of the same degree are a different but well-formed encoding
                        match g {
                            Ok(x) => {
                                if n != n2 {
                                    return Err(format!("encoding of degree {n} accepted in a context of degree {n2}"));
                                }
                                if coeffs(&x).iter().zip(b).any(|(r, m)| r.iter().any(|v| v >= m)) {
                                    return Err(format!("accepted polynomial has out-of-range residues: {:?}", coeffs(&x)));
                                }
                                if fits && coeffs(&x) != rows {
                                    return Err("accepted with different residues".into());
                                }
                                if x.to_bytes() != b0 {
                                    return Err("accepted encoding is not canonical".into());
                                }
                            }
                            Err(e) => {
                                if fits {
                                    return Err(format!("refused: {e}"));
                                }
                            }
                        }
                        if (Poly::<Ntt>::from_bytes(&b1, &cb).is_ok() || Poly::<NttShoup>::from_bytes(&b2, &cb).is_ok()) && n != n2 {
                            return Err(format!("transformed encoding of degree {n} accepted in degree {n2}"));
                        }
                        if Poly::<Ntt>::from_bytes(&b0, &cb).is_ok() || Poly::<PowerBasis>::from_bytes(&b1, &cb).is_ok() || Poly::<NttShoup>::from_bytes(&b1, &cb).is_ok() || Poly::<Ntt>::from_bytes(&b2, &cb).is_ok() {
                            return Err("encoding of another representation accepted".into());
                        }
                        s.outcome(h64(&(fits, pat)));
                        Ok(7)
                    });
                }
            }
        }
    });
    r.suite("fields", "every combination of representation -1..=6 and extremes, degree 0..=40 and extremes, coefficient byte counts 0..=40 and the permission field, written directly as protobuf, for 4 contexts: accepted exactly when well formed, never granting the permission", |s| {
        for (q, n) in [(vec![17u64], 8usize), (vec![97], 16), (vec![17, 97], 8), (vec![257], 8)] {
            let ctx = Context::new_arc(&q, n).unwrap();
            let nb = |d: usize| q.iter().map(|p| (64 - (p - 1).leading_zeros()) as usize * d / 8).sum::<usize>();
            let reprs: Vec<Option<u64>> = [None].into_iter().chain([0u64, 1, 2, 3, 4, 5, 6, u64::MAX, 1 << 31, (1 << 32) + 1, (1 << 32) + 2].map(Some)).collect();
            let mut degs: Vec<Option<u64>> = vec![None];
            degs.extend((0..=40u64).map(Some));
            degs.extend([1 << 20, 1 << 31, u32::MAX as u64, u32::MAX as u64 - 7, (1u64 << 32) + n as u64, 1 << 60].map(Some));
            s.par(&reprs, |rp| {
                for d in &degs {
                    let mut lens: Vec<usize> = (0..=40).collect();
                    lens.extend([nb(n), nb(n) + 1, nb(8), nb(16), nb(32)]);
                    for len in lens {
                        for avt in [None, Some(1)] {
                            for fill in [0u8, 0x21, 0xff] {
                                let c = vec![fill; len];
                                let b = rq_bytes(*rp, *d, Some(&c), avt);
                                // protobuf: enum and uint32 are truncated to 32 bits
                                let eff_r = rp.map_or(0, |x| x as u32 as i32);
                                let eff_d = d.map_or(0, |x| x as u32) as usize;
                                let shape = eff_d == n && len == nb(n);
                                let vals: Option<Rows> = if shape {
                                    let mut off = 0;
                                    Some(q.iter().map(|p| {
                                        let w = (64 - (p - 1).leading_zeros()) as usize;
                                        let row = (0..n).map(|i| (0..w).fold(0u64, |a, k| { let bit = off + i * w + k; a | ((c[bit / 8] >> (bit % 8) & 1) as u64) << k })).collect();
                                        off += w * n;
                                        row
                                    }).collect())
                                } else {
                                    None
                                };
                                let good = vals.as_ref().is_some_and(|v| v.iter().zip(&q).all(|(r, p)| r.iter().all(|x| x < p)));
                                s.case(&format!("q={q:?} n={n} repr={rp:?} degree={d:?} len={len} avt={avt:?} fill={fill}"), || {
                                    let a = Poly::<PowerBasis>::from_bytes(&b, &ctx);
                                    let e = Poly::<Ntt>::from_bytes(&b, &ctx);
                                    let f = Poly::<NttShoup>::from_bytes(&b, &ctx);
                                    for (k, ok) in [(1, a.is_ok()), (2, e.is_ok()), (3, f.is_ok())] {
                                        let want = good && eff_r == k;
                                        if ok != want {
                                            return Err(format!("read as representation {k}: accepted = {ok}, expected {want}"));
                                        }
                                    }
                                    let flag = a.as_ref().is_ok_and(|x| x.allows_variable_time_computations()) || e.as_ref().is_ok_and(|x| x.allows_variable_time_computations()) || f.as_ref().is_ok_and(|x| x.allows_variable_time_computations());
                                    if flag {
                                        return Err("bytes granted the variable-time permission".into());
                                    }
                                    if let Some(v) = &vals {
                                        if good {
                                            let got = match (a, e, f) {
                                                (Ok(x), _, _) => coeffs(&x),
                                                (_, Ok(x), _) => coeffs(&x.into_power_basis()),
                                                (_, _, Ok(x)) => coeffs(&x.into_power_basis()),
                                                _ => return Ok(3),
                                            };
                                            if &got != v {
                                                return Err(format!("decoded {got:?}, bytes say {v:?}"));
                                            }
                                        }
                                    }
                                    Ok(3)
                                });
                            }
                        }
                    }
                }
            });
            s.outcome(h64(&q));
        }
    });
    r.suite("corruption", "every truncation, every single-byte replacement (all 256 values) and every one-byte insertion/deletion of genuine encodings in 3 contexts x 3 representations: rejected or decoded to a reduced, canonical polynomial", |s| {
        let p62 = ntt_primes(62, 64, 1);
        let mut items = vec![];
        for (q, n) in [(vec![17u64], 8usize), (vec![17, 97], 8), (vec![97, p62[0]], 16)] {
            for rep in 0..3 {
                items.push((q.clone(), n, rep));
            }
        }
        s.par(&items, |(q, n, rep)| {
            let ctx = Context::new_arc(q, *n).unwrap();
            let mut l = Lcg(4);
            let rows: Rows = q.iter().map(|p| (0..*n).map(|_| l.below(*p)).collect()).collect();
            let p = pb(&ctx, &rows, false);
            let g = match rep {
                0 => p.to_bytes(),
                1 => p.into_ntt().to_bytes(),
                _ => p.into_ntt_shoup().to_bytes(),
            };
            let mut vs: Vec<Vec<u8>> = vec![];
            for k in 0..g.len() {
                vs.push(g[..k].to_vec());
                let mut d = g.clone();
                d.remove(k);
                vs.push(d);
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    let mut d = g.clone();
                    d.insert(k, x);
                    vs.push(d);
                }
                for x in 0..=255u8 {
                    if x != g[k] {
                        let mut d = g.clone();
                        d[k] = x;
                        vs.push(d);
                    }
                }
            }
            for v in vs {
                let r = guard(|| {
                    let a = Poly::<PowerBasis>::from_bytes(&v, &ctx).ok().map(|x| (coeffs(&x), Poly::<PowerBasis>::from_bytes(&x.to_bytes(), &ctx).ok() == Some(x)));
                    let b = Poly::<Ntt>::from_bytes(&v, &ctx).ok().map(|x| (coeffs(&x.to_power_basis()), Poly::<Ntt>::from_bytes(&x.to_bytes(), &ctx).ok() == Some(x)));
                    let c = Poly::<NttShoup>::from_bytes(&v, &ctx).ok().map(|x| (coeffs(&x.to_power_basis()), Poly::<NttShoup>::from_bytes(&x.to_bytes(), &ctx).ok() == Some(x)));
                    a.or(b).or(c)
                });
                match r {
                    Err(e) => s.fail(&format!("q={q:?} rep={rep} {v:?}"), &format!("panicked: {e}")),
                    Ok(None) => {}
                    Ok(Some((rows, again))) => {
                        if !again || rows.len() != q.len() || rows.iter().zip(q).any(|(r, m)| r.len() != *n || r.iter().any(|x| x >= m)) {
                            s.fail(&format!("q={q:?} rep={rep} {v:?}"), &format!("accepted as {rows:?}"));
                        }
                        s.outcome(h64(&rows));
                    }
                }
                s.cases(1);
                s.states(1);
                s.transitions(1);
            }
        });
    });
}
