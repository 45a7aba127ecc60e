// ---------------------------------------------------------------------------------------------
// Commutative rings and fields, polynomial identities by reflection, sums, determinants,
// inverses.  Everything in this file is proved; nothing is assumed.
// ---------------------------------------------------------------------------------------------

/// operations on T; `ring()` / `fld()` say that they form a commutative ring / a field
#[verifier::reject_recursive_types(T)]
pub struct Rg<T> { pub add: spec_fn(T, T) -> T, pub sub: spec_fn(T, T) -> T, pub mul: spec_fn(T, T) -> T, pub div: spec_fn(T, T) -> T, pub zero: T, pub one: T }
impl<T> Rg<T> {
    pub open spec fn p(self, a: T, b: T) -> T { (self.add)(a, b) }
    pub open spec fn s(self, a: T, b: T) -> T { (self.sub)(a, b) }
    pub open spec fn m(self, a: T, b: T) -> T { (self.mul)(a, b) }
    pub open spec fn d(self, a: T, b: T) -> T { (self.div)(a, b) }
    pub open spec fn neg(self, a: T) -> T { self.s(self.zero, a) }
    #[verifier::opaque]
    pub open spec fn ring(self) -> bool {
        &&& forall|a: T, b: T| #[trigger] self.p(a, b) == self.p(b, a)
        &&& forall|a: T, b: T, c: T| #[trigger] self.p(self.p(a, b), c) == self.p(a, self.p(b, c))
        &&& forall|a: T| #[trigger] self.p(a, self.zero) == a
        &&& forall|a: T, b: T| #[trigger] self.p(self.s(a, b), b) == a
        &&& forall|a: T, b: T| #[trigger] self.m(a, b) == self.m(b, a)
        &&& forall|a: T, b: T, c: T| #[trigger] self.m(self.m(a, b), c) == self.m(a, self.m(b, c))
        &&& forall|a: T| #[trigger] self.m(a, self.one) == a
        &&& forall|a: T, b: T, c: T| #[trigger] self.m(a, self.p(b, c)) == self.p(self.m(a, b), self.m(a, c))
    }
    #[verifier::opaque]
    pub open spec fn fld_laws(self) -> bool {
        &&& self.one != self.zero
        &&& forall|a: T, b: T| b != self.zero ==> #[trigger] self.m(self.d(a, b), b) == a
    }
    pub open spec fn fld(self) -> bool { self.ring() && self.fld_laws() }

    pub proof fn p_comm(self, a: T, b: T) requires self.ring() ensures self.p(a, b) == self.p(b, a) { reveal(Rg::ring); }
    pub proof fn p_assoc(self, a: T, b: T, c: T) requires self.ring() ensures self.p(self.p(a, b), c) == self.p(a, self.p(b, c)) { reveal(Rg::ring); }
    pub proof fn p_zero(self, a: T) requires self.ring() ensures self.p(a, self.zero) == a, self.p(self.zero, a) == a { reveal(Rg::ring); assert(self.p(self.zero, a) == self.p(a, self.zero)); }
    pub proof fn s_p(self, a: T, b: T) requires self.ring() ensures self.p(self.s(a, b), b) == a { reveal(Rg::ring); }
    pub proof fn m_comm(self, a: T, b: T) requires self.ring() ensures self.m(a, b) == self.m(b, a) { reveal(Rg::ring); }
    pub proof fn m_assoc(self, a: T, b: T, c: T) requires self.ring() ensures self.m(self.m(a, b), c) == self.m(a, self.m(b, c)) { reveal(Rg::ring); }
    pub proof fn m_one(self, a: T) requires self.ring() ensures self.m(a, self.one) == a, self.m(self.one, a) == a { reveal(Rg::ring); assert(self.m(self.one, a) == self.m(a, self.one)); }
    pub proof fn m_p(self, a: T, b: T, c: T) requires self.ring() ensures self.m(a, self.p(b, c)) == self.p(self.m(a, b), self.m(a, c)) { reveal(Rg::ring); }
    pub proof fn d_m(self, a: T, b: T) requires self.fld(), b != self.zero ensures self.m(self.d(a, b), b) == a { reveal(Rg::fld_laws); }
    pub proof fn one_zero(self) requires self.fld() ensures self.one != self.zero { reveal(Rg::fld_laws); }
    /// addition is cancellable
    pub proof fn p_cancel(self, a: T, b: T, c: T) requires self.ring(), self.p(a, c) == self.p(b, c) ensures a == b {
        let n = self.neg(c);
        self.s_p(self.zero, c); self.p_comm(n, c);
        self.p_assoc(a, c, n); self.p_assoc(b, c, n); self.p_zero(a); self.p_zero(b);
    }
    pub proof fn m_zero(self, a: T) requires self.ring() ensures self.m(a, self.zero) == self.zero, self.m(self.zero, a) == self.zero {
        let z = self.m(a, self.zero);
        self.p_zero(self.zero); self.m_p(a, self.zero, self.zero);
        self.p_zero(z); self.p_cancel(z, self.zero, z); self.m_comm(a, self.zero);
    }
}

// --- polynomial identities by reflection ---------------------------------------------------------
pub enum Ex { V(nat), Zero, One, Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Mul(Box<Ex>, Box<Ex>) }
pub enum Mo { Nil, Cons(nat, Box<Mo>) }
pub enum Ms { Nil, Cons(Mo, Box<Ms>) }
pub open spec fn ev<T>(R: Rg<T>, env: Seq<T>, e: Ex) -> T decreases e {
    match e { Ex::V(i) => env[i as int], Ex::Zero => R.zero, Ex::One => R.one,
        Ex::Add(a, b) => R.p(ev(R, env, *a), ev(R, env, *b)), Ex::Sub(a, b) => R.s(ev(R, env, *a), ev(R, env, *b)), Ex::Mul(a, b) => R.m(ev(R, env, *a), ev(R, env, *b)) }
}
pub open spec fn mev<T>(R: Rg<T>, env: Seq<T>, m: Mo) -> T decreases m { match m { Mo::Nil => R.one, Mo::Cons(v, r) => R.m(env[v as int], mev(R, env, *r)) } }
pub open spec fn sev<T>(R: Rg<T>, env: Seq<T>, s: Ms) -> T decreases s { match s { Ms::Nil => R.zero, Ms::Cons(m, r) => R.p(mev(R, env, m), sev(R, env, *r)) } }
pub open spec fn mins(v: nat, m: Mo) -> Mo decreases m { match m { Mo::Nil => Mo::Cons(v, Box::new(Mo::Nil)), Mo::Cons(w, r) => if v <= w { Mo::Cons(v, Box::new(m)) } else { Mo::Cons(w, Box::new(mins(v, *r))) } } }
pub open spec fn mmul(a: Mo, b: Mo) -> Mo decreases a { match a { Mo::Nil => b, Mo::Cons(v, r) => mins(v, mmul(*r, b)) } }
pub open spec fn mle(a: Mo, b: Mo) -> bool decreases a { match (a, b) { (Mo::Nil, _) => true, (_, Mo::Nil) => false, (Mo::Cons(v, r), Mo::Cons(w, q)) => v < w || v == w && mle(*r, *q) } }
pub open spec fn sins(m: Mo, s: Ms) -> Ms decreases s { match s { Ms::Nil => Ms::Cons(m, Box::new(Ms::Nil)), Ms::Cons(k, r) => if mle(m, k) { Ms::Cons(m, Box::new(s)) } else { Ms::Cons(k, Box::new(sins(m, *r))) } } }
/// merge a into b
pub open spec fn sadd(a: Ms, b: Ms) -> Ms decreases a { match a { Ms::Nil => b, Ms::Cons(m, r) => sins(m, sadd(*r, b)) } }
pub open spec fn sscale(m: Mo, s: Ms) -> Ms decreases s { match s { Ms::Nil => Ms::Nil, Ms::Cons(k, r) => sins(mmul(m, k), sscale(m, *r)) } }
pub open spec fn smul(a: Ms, b: Ms) -> Ms decreases a { match a { Ms::Nil => Ms::Nil, Ms::Cons(m, r) => sadd(sscale(m, b), smul(*r, b)) } }
/// the monomials with positive and with negative sign
pub open spec fn pn(e: Ex) -> (Ms, Ms) decreases e {
    match e {
        Ex::V(i) => (Ms::Cons(Mo::Cons(i, Box::new(Mo::Nil)), Box::new(Ms::Nil)), Ms::Nil),
        Ex::Zero => (Ms::Nil, Ms::Nil),
        Ex::One => (Ms::Cons(Mo::Nil, Box::new(Ms::Nil)), Ms::Nil),
        Ex::Add(a, b) => { let x = pn(*a); let y = pn(*b); (sadd(x.0, y.0), sadd(x.1, y.1)) },
        Ex::Sub(a, b) => { let x = pn(*a); let y = pn(*b); (sadd(x.0, y.1), sadd(x.1, y.0)) },
        Ex::Mul(a, b) => { let x = pn(*a); let y = pn(*b); (sadd(smul(x.0, y.0), smul(x.1, y.1)), sadd(smul(x.0, y.1), smul(x.1, y.0))) },
    }
}
pub open spec fn same(a: Ex, b: Ex) -> bool { let x = pn(a); let y = pn(b); sadd(x.0, y.1) == sadd(y.0, x.1) }

pub proof fn mins_ok<T>(R: Rg<T>, env: Seq<T>, v: nat, m: Mo) requires R.ring() ensures mev(R, env, mins(v, m)) == R.m(env[v as int], mev(R, env, m)) decreases m {
    match m { Mo::Nil => {}, Mo::Cons(w, r) => if v > w {
        mins_ok(R, env, v, *r);
        let (x, y, z) = (env[v as int], env[w as int], mev(R, env, *r));
        R.m_assoc(y, x, z); R.m_assoc(x, y, z); R.m_comm(x, y);
    } }
}
pub proof fn mmul_ok<T>(R: Rg<T>, env: Seq<T>, a: Mo, b: Mo) requires R.ring() ensures mev(R, env, mmul(a, b)) == R.m(mev(R, env, a), mev(R, env, b)) decreases a {
    match a { Mo::Nil => { R.m_one(mev(R, env, b)); }, Mo::Cons(v, r) => {
        mmul_ok(R, env, *r, b); mins_ok(R, env, v, mmul(*r, b)); R.m_assoc(env[v as int], mev(R, env, *r), mev(R, env, b)); } }
}
pub proof fn sins_ok<T>(R: Rg<T>, env: Seq<T>, m: Mo, s: Ms) requires R.ring() ensures sev(R, env, sins(m, s)) == R.p(mev(R, env, m), sev(R, env, s)) decreases s {
    match s { Ms::Nil => {}, Ms::Cons(k, r) => if !mle(m, k) {
        sins_ok(R, env, m, *r);
        let (x, y, z) = (mev(R, env, m), mev(R, env, k), sev(R, env, *r));
        R.p_assoc(y, x, z); R.p_assoc(x, y, z); R.p_comm(x, y);
    } }
}
pub proof fn sadd_ok<T>(R: Rg<T>, env: Seq<T>, a: Ms, b: Ms) requires R.ring() ensures sev(R, env, sadd(a, b)) == R.p(sev(R, env, a), sev(R, env, b)) decreases a {
    match a { Ms::Nil => { R.p_zero(sev(R, env, b)); }, Ms::Cons(m, r) => {
        sadd_ok(R, env, *r, b); sins_ok(R, env, m, sadd(*r, b)); R.p_assoc(mev(R, env, m), sev(R, env, *r), sev(R, env, b)); } }
}
pub proof fn sscale_ok<T>(R: Rg<T>, env: Seq<T>, m: Mo, s: Ms) requires R.ring() ensures sev(R, env, sscale(m, s)) == R.m(mev(R, env, m), sev(R, env, s)) decreases s {
    match s { Ms::Nil => { R.m_zero(mev(R, env, m)); }, Ms::Cons(k, r) => {
        sscale_ok(R, env, m, *r); mmul_ok(R, env, m, k); sins_ok(R, env, mmul(m, k), sscale(m, *r)); R.m_p(mev(R, env, m), mev(R, env, k), sev(R, env, *r)); } }
}
pub proof fn m_pr<T>(R: Rg<T>, a: T, b: T, c: T) requires R.ring() ensures R.m(R.p(a, b), c) == R.p(R.m(a, c), R.m(b, c)) { R.m_comm(R.p(a, b), c); R.m_p(c, a, b); R.m_comm(c, a); R.m_comm(c, b); }
pub proof fn smul_ok<T>(R: Rg<T>, env: Seq<T>, a: Ms, b: Ms) requires R.ring() ensures sev(R, env, smul(a, b)) == R.m(sev(R, env, a), sev(R, env, b)) decreases a {
    match a { Ms::Nil => { R.m_zero(sev(R, env, b)); }, Ms::Cons(m, r) => {
        smul_ok(R, env, *r, b); sscale_ok(R, env, m, b); sadd_ok(R, env, sscale(m, b), smul(*r, b)); m_pr(R, mev(R, env, m), sev(R, env, *r), sev(R, env, b)); } }
}
/// (a + b) + (c + d) == (a + c) + (b + d)
pub proof fn p4<T>(R: Rg<T>, a: T, b: T, c: T, d: T) requires R.ring() ensures R.p(R.p(a, b), R.p(c, d)) == R.p(R.p(a, c), R.p(b, d)) {
    R.p_assoc(a, b, R.p(c, d)); R.p_assoc(b, c, d); R.p_comm(b, c); R.p_assoc(c, b, d); R.p_assoc(a, c, R.p(b, d));
}
pub proof fn pn_ok<T>(R: Rg<T>, env: Seq<T>, e: Ex) requires R.ring() ensures R.p(ev(R, env, e), sev(R, env, pn(e).1)) == sev(R, env, pn(e).0) decreases e {
    match e {
        Ex::V(i) => { R.m_one(env[i as int]); reveal_with_fuel(mev, 3); reveal_with_fuel(sev, 3); },
        Ex::Zero => { R.p_zero(R.zero); },
        Ex::One => { reveal_with_fuel(mev, 3); reveal_with_fuel(sev, 3); },
        Ex::Add(a, b) => {
            let (x, y) = (pn(*a), pn(*b));
            let (u, v) = (ev(R, env, *a), ev(R, env, *b));
            let (x0, x1, y0, y1) = (sev(R, env, x.0), sev(R, env, x.1), sev(R, env, y.0), sev(R, env, y.1));
            pn_ok(R, env, *a); pn_ok(R, env, *b); sadd_ok(R, env, x.0, y.0); sadd_ok(R, env, x.1, y.1);
            p4(R, u, v, x1, y1);
        },
        Ex::Sub(a, b) => {
            let (x, y) = (pn(*a), pn(*b));
            let (u, v) = (ev(R, env, *a), ev(R, env, *b));
            let (x0, x1, y0, y1) = (sev(R, env, x.0), sev(R, env, x.1), sev(R, env, y.0), sev(R, env, y.1));
            pn_ok(R, env, *a); pn_ok(R, env, *b); sadd_ok(R, env, x.0, y.1); sadd_ok(R, env, x.1, y.0);
            // (u - v) + (x1 + y0), where y0 = v + y1 and x0 = u + x1
            let w = R.s(u, v);
            R.s_p(u, v);
            assert(R.p(w, R.p(x1, R.p(v, y1))) == R.p(R.p(u, x1), y1)) by {
                R.p_assoc(x1, v, y1); R.p_comm(x1, v); R.p_assoc(v, x1, y1); R.p_assoc(w, v, R.p(x1, y1)); R.p_assoc(u, x1, y1);
            }
        },
        Ex::Mul(a, b) => {
            let (x, y) = (pn(*a), pn(*b));
            let (u, v) = (ev(R, env, *a), ev(R, env, *b));
            let (x0, x1, y0, y1) = (sev(R, env, x.0), sev(R, env, x.1), sev(R, env, y.0), sev(R, env, y.1));
            pn_ok(R, env, *a); pn_ok(R, env, *b);
            smul_ok(R, env, x.0, y.0); smul_ok(R, env, x.1, y.1); smul_ok(R, env, x.0, y.1); smul_ok(R, env, x.1, y.0);
            sadd_ok(R, env, smul(x.0, y.0), smul(x.1, y.1)); sadd_ok(R, env, smul(x.0, y.1), smul(x.1, y.0));
            // x0 = u + x1, y0 = v + y1
            let (uv, ux, xv, xy) = (R.m(u, v), R.m(u, y1), R.m(x1, v), R.m(x1, y1));
            m_pr(R, u, x1, y0); R.m_p(u, v, y1); R.m_p(x1, v, y1);
            m_pr(R, u, x1, y1);
            // x0*y0 + x1*y1 = ((uv + ux) + (xv + xy)) + xy ; x0*y1 + x1*y0 = (ux + xy) + (xv + xy)
            assert(R.p(R.p(R.p(uv, ux), R.p(xv, xy)), xy) == R.p(uv, R.p(R.p(ux, xy), R.p(xv, xy)))) by {
                let t = R.p(xv, xy);
                R.p_assoc(uv, ux, t); R.p_assoc(uv, R.p(ux, t), xy); R.p_comm(ux, t); R.p_assoc(t, ux, xy); R.p_comm(t, R.p(ux, xy));
            }
        },
    }
}
/// two expressions with the same normal form are equal in every commutative ring
pub proof fn same_ok<T>(R: Rg<T>, env: Seq<T>, a: Ex, b: Ex) requires R.ring(), same(a, b) ensures ev(R, env, a) == ev(R, env, b) {
    let (x, y) = (pn(a), pn(b));
    let (u, v) = (ev(R, env, a), ev(R, env, b));
    let (x1, y1) = (sev(R, env, x.1), sev(R, env, y.1));
    pn_ok(R, env, a); pn_ok(R, env, b); sadd_ok(R, env, x.0, y.1); sadd_ok(R, env, y.0, x.1);
    R.p_assoc(u, x1, y1); R.p_assoc(v, y1, x1); R.p_comm(x1, y1);
    R.p_cancel(u, v, R.p(x1, y1));
}
@identity id_cof_lin(x g c d e): x*(g*(d + c*e)) == x*(g*d) + c*(x*(g*e))
@identity id_row_lin(x y c w): (x + c*y)*w == x*w + c*(y*w)
@identity id_adj(x g d): x*(g*d) + x*((0-g)*d) == 0
@identity id_negneg(): 0 - (0 - 1) == 1

// --- sums ------------------------------------------------------------------------------------------
pub open spec fn sum<T>(R: Rg<T>, n: int, f: spec_fn(int) -> T) -> T decreases n { if n <= 0 { R.zero } else { R.p(sum(R, n - 1, f), f(n - 1)) } }
pub proof fn sum_ext<T>(R: Rg<T>, n: int, f: spec_fn(int) -> T, g: spec_fn(int) -> T) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sum(R, n, f) == sum(R, n, g) decreases n
{ if n > 0 { sum_ext(R, n - 1, f, g); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_zero<T>(R: Rg<T>, n: int, f: spec_fn(int) -> T) requires R.ring(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == R.zero ensures sum(R, n, f) == R.zero decreases n
{ if n > 0 { sum_zero(R, n - 1, f); R.p_zero(R.zero); assert(f(n - 1) == R.zero); } }
/// h = f + c*g termwise
pub proof fn sum_lin<T>(R: Rg<T>, n: int, h: spec_fn(int) -> T, f: spec_fn(int) -> T, c: T, g: spec_fn(int) -> T)
    requires R.ring(), forall|i: int| 0 <= i < n ==> #[trigger] h(i) == R.p(f(i), R.m(c, g(i)))
    ensures sum(R, n, h) == R.p(sum(R, n, f), R.m(c, sum(R, n, g))) decreases n
{
    if n > 0 { sum_lin(R, n - 1, h, f, c, g); assert(h(n - 1) == R.p(f(n - 1), R.m(c, g(n - 1))));
        id_sum_lin(R, sum(R, n - 1, f), c, sum(R, n - 1, g), f(n - 1), g(n - 1)); }
    else { id_zero_lin(R, c); }
}
@identity id_sum_lin(a c b x y): (a + c*b) + (x + c*y) == (a + x) + c*(b + y)
@identity id_zero_lin(c): 0 == 0 + c*0
/// all terms but the k-th vanish
pub proof fn sum_one<T>(R: Rg<T>, n: int, k: int, f: spec_fn(int) -> T)
    requires R.ring(), 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == R.zero
    ensures sum(R, n, f) == f(k) decreases n
{
    if k == n - 1 { sum_zero(R, n - 1, f); R.p_zero(f(k)); }
    else { sum_one(R, n - 1, k, f); assert(f(n - 1) == R.zero); R.p_zero(f(k)); }
}
/// all terms but the k-th and the next vanish
pub proof fn sum_two<T>(R: Rg<T>, n: int, k: int, f: spec_fn(int) -> T)
    requires R.ring(), 0 <= k, k + 1 < n, forall|i: int| 0 <= i < n && i != k && i != k + 1 ==> #[trigger] f(i) == R.zero
    ensures sum(R, n, f) == R.p(f(k), f(k + 1)) decreases n
{
    if k + 1 == n - 1 { sum_one(R, n - 1, k, f); }
    else { sum_two(R, n - 1, k, f); assert(f(n - 1) == R.zero); R.p_zero(R.p(f(k), f(k + 1))); }
}
pub proof fn sum_scale<T>(R: Rg<T>, n: int, h: spec_fn(int) -> T, c: T, g: spec_fn(int) -> T)
    requires R.ring(), forall|i: int| 0 <= i < n ==> #[trigger] h(i) == R.m(c, g(i))
    ensures sum(R, n, h) == R.m(c, sum(R, n, g)) decreases n
{
    if n > 0 { sum_scale(R, n - 1, h, c, g); assert(h(n - 1) == R.m(c, g(n - 1))); R.m_p(c, sum(R, n - 1, g), g(n - 1)); }
    else { R.m_zero(c); }
}
pub proof fn sum_add<T>(R: Rg<T>, n: int, h: spec_fn(int) -> T, f: spec_fn(int) -> T, g: spec_fn(int) -> T)
    requires R.ring(), forall|i: int| 0 <= i < n ==> #[trigger] h(i) == R.p(f(i), g(i))
    ensures sum(R, n, h) == R.p(sum(R, n, f), sum(R, n, g)) decreases n
{
    if n > 0 { sum_add(R, n - 1, h, f, g); assert(h(n - 1) == R.p(f(n - 1), g(n - 1))); p4(R, sum(R, n - 1, f), sum(R, n - 1, g), f(n - 1), g(n - 1)); }
    else { R.p_zero(R.zero); }
}
/// exchanging the order of summation
pub proof fn sum_swap<T>(R: Rg<T>, n: int, m: int, f: spec_fn(int, int) -> T)
    requires R.ring()
    ensures sum(R, n, |i: int| sum(R, m, |j: int| f(i, j))) == sum(R, m, |j: int| sum(R, n, |i: int| f(i, j))) decreases n
{
    let rows = |i: int| sum(R, m, |j: int| f(i, j));
    let cols = |j: int| sum(R, n, |i: int| f(i, j));
    if n <= 0 { assert forall|j: int| 0 <= j < m implies #[trigger] cols(j) == R.zero by {} sum_zero(R, m, cols); }
    else {
        sum_swap(R, n - 1, m, f);
        let cols1 = |j: int| sum(R, n - 1, |i: int| f(i, j));
        let last = |j: int| f(n - 1, j);
        assert forall|j: int| 0 <= j < m implies #[trigger] cols(j) == R.p(cols1(j), last(j)) by {}
        sum_add(R, m, cols, cols1, last);
        assert(rows(n - 1) == sum(R, m, last));
    }
}

// --- determinants ----------------------------------------------------------------------------------
pub type Mat<T> = spec_fn(int, int) -> T;
pub open spec fn up(i: int, k: int) -> int { if k < i { k } else { k + 1 } }
/// m without row i and column j
pub open spec fn minor<T>(m: Mat<T>, i: int, j: int) -> Mat<T> { |r: int, c: int| m(up(i, r), up(j, c)) }
pub open spec fn sgn<T>(R: Rg<T>, k: int) -> T { if k % 2 == 0 { R.one } else { R.neg(R.one) } }
/// Laplace expansion along column 0
pub open spec fn det<T>(R: Rg<T>, n: nat, m: Mat<T>) -> T decreases n, 1nat
{ if n == 0 { R.one } else { sum(R, n as int, dterm(R, n, m)) } }
pub open spec fn dterm<T>(R: Rg<T>, n: nat, m: Mat<T>) -> spec_fn(int) -> T decreases n, 0nat
{ |i: int| if n == 0 { R.zero } else { R.m(m(i, 0), R.m(sgn(R, i), det(R, (n - 1) as nat, minor(m, i, 0)))) } }
/// (-1)^(i+j) times the determinant of the minor
pub open spec fn cof<T>(R: Rg<T>, n: nat, m: Mat<T>, i: int, j: int) -> T { R.m(sgn(R, i + j), det(R, (n - 1) as nat, minor(m, i, j))) }
pub open spec fn meq<T>(n: nat, a: Mat<T>, b: Mat<T>) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a(i, j) == b(i, j) }
pub proof fn det_ext<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>) requires meq(n, a, b) ensures det(R, n, a) == det(R, n, b) decreases n
{
    if n > 0 {
        
        assert forall|i: int| 0 <= i < n implies #[trigger] dterm(R, n, a)(i) == dterm(R, n, b)(i) by {
            assert(a(i, 0) == b(i, 0));
            det_ext(R, (n - 1) as nat, minor(a, i, 0), minor(b, i, 0));
        }
        sum_ext(R, n as int, dterm(R, n, a), dterm(R, n, b));
    }
}
/// the determinant is linear in row r
pub proof fn det_lin<T>(R: Rg<T>, n: nat, m0: Mat<T>, m1: Mat<T>, c: T, m2: Mat<T>, r: int)
    requires R.ring(), 0 <= r < n,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != r ==> #[trigger] m0(i, j) == m1(i, j) && m0(i, j) == m2(i, j),
        forall|j: int| 0 <= j < n ==> #[trigger] m0(r, j) == R.p(m1(r, j), R.m(c, m2(r, j))),
    ensures det(R, n, m0) == R.p(det(R, n, m1), R.m(c, det(R, n, m2)))
    decreases n
{
    
    let k = (n - 1) as nat;
    let (t0, t1, t2) = (dterm(R, n, m0), dterm(R, n, m1), dterm(R, n, m2));
    assert forall|i: int| 0 <= i < n implies #[trigger] t0(i) == R.p(t1(i), R.m(c, t2(i))) by {
        let (a0, a1, a2) = (minor(m0, i, 0), minor(m1, i, 0), minor(m2, i, 0));
        if i == r {
            det_ext(R, k, a0, a1); det_ext(R, k, a0, a2);
            assert(m0(r, 0) == R.p(m1(r, 0), R.m(c, m2(r, 0))));
            id_row_lin(R, m1(i, 0), m2(i, 0), c, R.m(sgn(R, i), det(R, k, a0)));
        } else {
            let q = if r < i { r } else { r - 1 };
            assert(up(i, q) == r);
            assert forall|x: int, j: int| 0 <= x < k && 0 <= j < k && x != q implies #[trigger] a0(x, j) == a1(x, j) && a0(x, j) == a2(x, j) by { assert(m0(up(i, x), up(0, j)) == m1(up(i, x), up(0, j))); }
            assert forall|j: int| 0 <= j < k implies #[trigger] a0(q, j) == R.p(a1(q, j), R.m(c, a2(q, j))) by { assert(m0(r, up(0, j)) == R.p(m1(r, up(0, j)), R.m(c, m2(r, up(0, j))))); }
            det_lin(R, k, a0, a1, c, a2, q);
            assert(m0(i, 0) == m1(i, 0) && m0(i, 0) == m2(i, 0));
            id_cof_lin(R, m0(i, 0), sgn(R, i), c, det(R, k, a1), det(R, k, a2));
        }
    }
    sum_lin(R, n as int, t0, t1, c, t2);
}
pub proof fn sgn_next<T>(R: Rg<T>, k: int) requires R.ring(), k >= 0 ensures sgn(R, k + 1) == R.neg(sgn(R, k)) { id_negneg(R); }
/// two equal adjacent rows
pub proof fn det_adj<T>(R: Rg<T>, n: nat, m: Mat<T>, r: int)
    requires R.ring(), 0 <= r, r + 1 < n, forall|j: int| 0 <= j < n ==> #[trigger] m(r, j) == m(r + 1, j)
    ensures det(R, n, m) == R.zero
    decreases n
{
    
    let k = (n - 1) as nat; let t = dterm(R, n, m);
    assert forall|i: int| 0 <= i < n && i != r && i != r + 1 implies #[trigger] t(i) == R.zero by {
        let a = minor(m, i, 0);
        let q = if i < r { r - 1 } else { r };
        assert(up(i, q) == r && up(i, q + 1) == r + 1);
        assert forall|j: int| 0 <= j < k implies #[trigger] a(q, j) == a(q + 1, j) by { assert(m(r, up(0, j)) == m(r + 1, up(0, j))); }
        det_adj(R, k, a, q);
        R.m_zero(sgn(R, i)); R.m_zero(m(i, 0));
    }
    sum_two(R, n as int, r, t);
    let (a, b) = (minor(m, r, 0), minor(m, r + 1, 0));
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies #[trigger] a(i, j) == b(i, j) by { assert(m(r, up(0, j)) == m(r + 1, up(0, j))); }
    det_ext(R, k, a, b);
    sgn_next(R, r);
    assert(m(r, 0) == m(r + 1, 0));
    id_adj(R, m(r, 0), sgn(R, r), det(R, k, a));
}
pub open spec fn setrow<T>(m: Mat<T>, r: int, f: spec_fn(int) -> T) -> Mat<T> { |i: int, j: int| if i == r { f(j) } else { m(i, j) } }
@identity id_swap(aa ab ba bb): ((aa + 1*ab) + 1*(ba + 1*bb)) == (ab + ba) + (aa + bb)
/// exchanging two adjacent rows changes the sign
pub proof fn det_swap_adj<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>, r: int)
    requires R.ring(), 0 <= r, r + 1 < n,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != r && i != r + 1 ==> #[trigger] a(i, j) == b(i, j),
        forall|j: int| 0 <= j < n ==> #[trigger] a(r, j) == b(r + 1, j),
        forall|j: int| 0 <= j < n ==> #[trigger] a(r + 1, j) == b(r, j),
    ensures R.p(det(R, n, a), det(R, n, b)) == R.zero
{
    let x = |j: int| a(r, j); let y = |j: int| a(r + 1, j); let z = |j: int| R.p(a(r, j), R.m(R.one, a(r + 1, j)));
    let q = |f: spec_fn(int) -> T, g: spec_fn(int) -> T| setrow(setrow(a, r, f), r + 1, g);
    let zz = q(z, z); let xz = q(x, z); let yz = q(y, z); let xx = q(x, x); let xy = q(x, y); let yx = q(y, x); let yy = q(y, y);
    det_adj(R, n, zz, r); det_adj(R, n, xx, r); det_adj(R, n, yy, r);
    det_lin(R, n, zz, xz, R.one, yz, r);
    det_lin(R, n, xz, xx, R.one, xy, r + 1);
    det_lin(R, n, yz, yx, R.one, yy, r + 1);
    det_ext(R, n, xy, a); det_ext(R, n, yx, b);
    let (da, db) = (det(R, n, a), det(R, n, b));
    id_swap(R, R.zero, da, db, R.zero);
    R.p_zero(R.zero); R.p_zero(R.p(da, db));
}
/// two equal rows
pub proof fn det_eqrows<T>(R: Rg<T>, n: nat, m: Mat<T>, i: int, j: int)
    requires R.ring(), 0 <= i < j < n, forall|k: int| 0 <= k < n ==> #[trigger] m(i, k) == m(j, k)
    ensures det(R, n, m) == R.zero
    decreases j - i
{
    if j == i + 1 { det_adj(R, n, m, i); }
    else {
        let x = |k: int| m(j, k); let y = |k: int| m(j - 1, k);
        let b = setrow(setrow(m, j - 1, x), j, y);
        det_swap_adj(R, n, m, b, j - 1);
        det_eqrows(R, n, b, i, j - 1);
        R.p_zero(det(R, n, m));
    }
}
@identity id_rowsub(a b c): a - b*c == a + (0 - c)*b
/// subtracting a multiple of row i from row j
pub proof fn det_rowop<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>, i: int, j: int, c: T)
    requires R.ring(), 0 <= i < n, 0 <= j < n, i != j,
        forall|r: int, k: int| 0 <= r < n && 0 <= k < n && r != j ==> #[trigger] b(r, k) == a(r, k),
        forall|k: int| 0 <= k < n ==> #[trigger] b(j, k) == R.s(a(j, k), R.m(a(i, k), c)),
    ensures det(R, n, b) == det(R, n, a)
{
    let x = |k: int| a(i, k);
    let e = setrow(a, j, x);
    assert forall|k: int| 0 <= k < n implies #[trigger] b(j, k) == R.p(a(j, k), R.m(R.neg(c), e(j, k))) by { assert(b(j, k) == R.s(a(j, k), R.m(a(i, k), c))); id_rowsub(R, a(j, k), a(i, k), c); }
    assert forall|r: int, k: int| 0 <= r < n && 0 <= k < n && r != j implies #[trigger] b(r, k) == a(r, k) && b(r, k) == e(r, k) by { assert(b(r, k) == a(r, k)); }
    det_lin(R, n, b, a, R.neg(c), e, j);
    if i < j { det_eqrows(R, n, e, i, j); } else { det_eqrows(R, n, e, j, i); }
    R.m_zero(R.neg(c)); R.p_zero(det(R, n, a));
}
/// the product of the first k diagonal entries, from the left
pub open spec fn dprod<T>(R: Rg<T>, k: int, m: Mat<T>) -> T decreases k { if k <= 0 { R.one } else { R.m(dprod(R, k - 1, m), m(k - 1, k - 1)) } }
pub open spec fn shift<T>(m: Mat<T>, s: int) -> Mat<T> { |i: int, j: int| m(i + s, j + s) }
@identity id_one(x): x*(1*1) == x
/// the determinant of an upper triangular matrix is the product of the diagonal
pub proof fn det_tri<T>(R: Rg<T>, n: nat, m: Mat<T>, s: int)
    requires R.ring(), 0 <= s <= n, forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] m(i, j) == R.zero
    ensures det(R, n, m) == R.m(dprod(R, s, m), det(R, (n - s) as nat, shift(m, s)))
    decreases s
{
    if s == 0 { det_ext(R, n, m, shift(m, 0)); R.m_one(det(R, n, m)); }
    else {
        let t = s - 1; let k = (n - t) as nat; let a = shift(m, t);
        det_tri(R, n, m, t);
        
        let f = dterm(R, k, a);
        assert forall|i: int| 0 <= i < k && i != 0 implies #[trigger] f(i) == R.zero by { assert(m(i + t, t) == R.zero); R.m_zero(R.m(sgn(R, i), det(R, (k - 1) as nat, minor(a, i, 0)))); }
        sum_one(R, k as int, 0, f);
        let b = minor(a, 0, 0);
        assert forall|i: int, j: int| 0 <= i < k - 1 && 0 <= j < k - 1 implies #[trigger] b(i, j) == shift(m, s)(i, j) by {}
        det_ext(R, (k - 1) as nat, b, shift(m, s));
        R.m_one(det(R, (k - 1) as nat, b));
        R.m_assoc(dprod(R, t, m), m(t, t), det(R, (n - s) as nat, shift(m, s)));
    }
}
pub proof fn det_diag<T>(R: Rg<T>, n: nat, m: Mat<T>)
    requires R.ring(), forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] m(i, j) == R.zero
    ensures det(R, n, m) == dprod(R, n as int, m)
{ det_tri(R, n, m, n as int); R.m_one(dprod(R, n as int, m)); }

// --- inverses --------------------------------------------------------------------------------------
pub open spec fn delta<T>(R: Rg<T>, i: int, j: int) -> T { if i == j { R.one } else { R.zero } }
pub open spec fn colv<T>(m: Mat<T>, j: int) -> spec_fn(int) -> T { |k: int| m(k, j) }
/// entry i of m times v
pub open spec fn rowdot<T>(R: Rg<T>, n: nat, m: Mat<T>, i: int, v: spec_fn(int) -> T) -> T { sum(R, n as int, |k: int| R.m(m(i, k), v(k))) }
/// a * b is the identity
pub open spec fn is_one<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] rowdot(R, n, a, i, colv(b, j)) == delta(R, i, j) }
pub open spec fn is_inv<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>) -> bool { is_one(R, n, a, b) && is_one(R, n, b, a) }
pub open spec fn zerov<T>(R: Rg<T>, n: nat, v: spec_fn(int) -> T) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] v(i) == R.zero }
pub open spec fn kills<T>(R: Rg<T>, n: nat, m: Mat<T>, v: spec_fn(int) -> T) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] rowdot(R, n, m, i, v) == R.zero }
pub open spec fn inj<T>(R: Rg<T>, n: nat, m: Mat<T>) -> bool { forall|v: spec_fn(int) -> T| #[trigger] kills(R, n, m, v) ==> zerov(R, n, v) }
/// what Gauss-Jordan elimination maintains: e * a == m, and e is injective
pub open spec fn gj<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>) -> bool {
    inj(R, n, e) && forall|i: int, j: int| #![trigger m(i, j)] #![trigger rowdot(R, n, e, i, colv(a, j))] 0 <= i < n && 0 <= j < n ==> rowdot(R, n, e, i, colv(a, j)) == m(i, j)
}
pub open spec fn roweq<T>(n: nat, a: Mat<T>, i: int, b: Mat<T>, j: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] a(i, k) == b(j, k) }
pub proof fn rowdot_ext<T>(R: Rg<T>, n: nat, a: Mat<T>, i: int, b: Mat<T>, j: int, v: spec_fn(int) -> T, w: spec_fn(int) -> T)
    requires roweq(n, a, i, b, j), forall|k: int| 0 <= k < n ==> #[trigger] v(k) == w(k) ensures rowdot(R, n, a, i, v) == rowdot(R, n, b, j, w)
{
    let f = |k: int| R.m(a(i, k), v(k)); let g = |k: int| R.m(b(j, k), w(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(a(i, k) == b(j, k)); assert(v(k) == w(k)); }
    sum_ext(R, n as int, f, g);
}
@identity id_rd_scale(e c v): (e*c)*v == c*(e*v)
@identity id_rd_sub(e f c v): (e - f*c)*v == e*v + (0-c)*(f*v)
pub proof fn rowdot_scale<T>(R: Rg<T>, n: nat, b: Mat<T>, a: Mat<T>, r: int, c: T, v: spec_fn(int) -> T)
    requires R.ring(), forall|k: int| 0 <= k < n ==> #[trigger] b(r, k) == R.m(a(r, k), c)
    ensures rowdot(R, n, b, r, v) == R.m(c, rowdot(R, n, a, r, v))
{
    let f = |k: int| R.m(b(r, k), v(k)); let g = |k: int| R.m(a(r, k), v(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == R.m(c, g(k)) by { assert(b(r, k) == R.m(a(r, k), c)); id_rd_scale(R, a(r, k), c, v(k)); }
    sum_scale(R, n as int, f, c, g);
}
pub proof fn rowdot_sub<T>(R: Rg<T>, n: nat, b: Mat<T>, a: Mat<T>, i: int, j: int, c: T, v: spec_fn(int) -> T)
    requires R.ring(), forall|k: int| 0 <= k < n ==> #[trigger] b(j, k) == R.s(a(j, k), R.m(a(i, k), c))
    ensures rowdot(R, n, b, j, v) == R.p(rowdot(R, n, a, j, v), R.m(R.neg(c), rowdot(R, n, a, i, v)))
{
    let h = |k: int| R.m(b(j, k), v(k)); let f = |k: int| R.m(a(j, k), v(k)); let g = |k: int| R.m(a(i, k), v(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == R.p(f(k), R.m(R.neg(c), g(k))) by { assert(b(j, k) == R.s(a(j, k), R.m(a(i, k), c))); id_rd_sub(R, a(j, k), a(i, k), c, v(k)); }
    sum_lin(R, n as int, h, f, R.neg(c), g);
}
pub open spec fn others<T>(n: nat, a: Mat<T>, b: Mat<T>, r: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < n && i != r ==> #[trigger] b(i, k) == a(i, k) }
pub open spec fn scaled<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>, r: int, c: T) -> bool { others(n, a, b, r) && forall|k: int| 0 <= k < n ==> #[trigger] b(r, k) == R.m(a(r, k), c) }
pub open spec fn subbed<T>(R: Rg<T>, n: nat, a: Mat<T>, b: Mat<T>, i: int, j: int, c: T) -> bool { others(n, a, b, j) && forall|k: int| 0 <= k < n ==> #[trigger] b(j, k) == R.s(a(j, k), R.m(a(i, k), c)) }
pub open spec fn swapped<T>(n: nat, a: Mat<T>, b: Mat<T>, i: int, j: int) -> bool {
    roweq(n, b, i, a, j) && roweq(n, b, j, a, i) && forall|r: int, k: int| 0 <= r < n && 0 <= k < n && r != i && r != j ==> #[trigger] b(r, k) == a(r, k)
}
/// scaling row r by the reciprocal c of d
pub proof fn gj_scale<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>, e1: Mat<T>, m1: Mat<T>, r: int, c: T, d: T)
    requires R.ring(), 0 <= r < n, gj(R, n, e, a, m), scaled(R, n, e, e1, r, c), scaled(R, n, m, m1, r, c), R.m(c, d) == R.one
    ensures gj(R, n, e1, a, m1)
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rowdot(R, n, e1, i, colv(a, j)) == #[trigger] m1(i, j) by {
        assert(rowdot(R, n, e, i, colv(a, j)) == m(i, j));
        if i == r { rowdot_scale(R, n, e1, e, r, c, colv(a, j)); R.m_comm(m(r, j), c); assert(m1(r, j) == R.m(m(r, j), c)); }
        else { rowdot_ext(R, n, e1, i, e, i, colv(a, j), colv(a, j)); }
    }
    assert forall|v: spec_fn(int) -> T| #[trigger] kills(R, n, e1, v) implies zerov(R, n, v) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] rowdot(R, n, e, i, v) == R.zero by {
            assert(rowdot(R, n, e1, i, v) == R.zero);
            if i == r { rowdot_scale(R, n, e1, e, r, c, v);
                let x = rowdot(R, n, e, r, v);
                R.m_comm(c, d); R.m_assoc(d, c, x); R.m_zero(d); R.m_one(x); }
            else { rowdot_ext(R, n, e1, i, e, i, v, v); }
        }
        assert(kills(R, n, e, v));
    }
}
@identity id_undo(c): 0 == 0 + c*0
/// subtracting c times row i from row j
pub proof fn gj_sub<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>, e1: Mat<T>, m1: Mat<T>, i: int, j: int, c: T)
    requires R.ring(), 0 <= i < n, 0 <= j < n, i != j, gj(R, n, e, a, m), subbed(R, n, e, e1, i, j, c), subbed(R, n, m, m1, i, j, c)
    ensures gj(R, n, e1, a, m1)
{
    assert forall|r: int, k: int| 0 <= r < n && 0 <= k < n implies rowdot(R, n, e1, r, colv(a, k)) == #[trigger] m1(r, k) by {
        assert(rowdot(R, n, e, r, colv(a, k)) == m(r, k));
        if r == j { rowdot_sub(R, n, e1, e, i, j, c, colv(a, k)); assert(rowdot(R, n, e, i, colv(a, k)) == m(i, k)); id_rowsub(R, m(j, k), m(i, k), c); assert(m1(j, k) == R.s(m(j, k), R.m(m(i, k), c))); }
        else { rowdot_ext(R, n, e1, r, e, r, colv(a, k), colv(a, k)); }
    }
    assert forall|v: spec_fn(int) -> T| #[trigger] kills(R, n, e1, v) implies zerov(R, n, v) by {
        assert(rowdot(R, n, e1, i, v) == R.zero); rowdot_ext(R, n, e1, i, e, i, v, v);
        assert forall|r: int| 0 <= r < n implies #[trigger] rowdot(R, n, e, r, v) == R.zero by {
            assert(rowdot(R, n, e1, r, v) == R.zero);
            if r == j { rowdot_sub(R, n, e1, e, i, j, c, v); R.m_zero(R.neg(c)); R.p_zero(rowdot(R, n, e, j, v)); }
            else { rowdot_ext(R, n, e1, r, e, r, v, v); }
        }
        assert(kills(R, n, e, v));
    }
}
/// exchanging rows i and j
pub proof fn gj_swap<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>, e1: Mat<T>, m1: Mat<T>, i: int, j: int)
    requires 0 <= i < n, 0 <= j < n, gj(R, n, e, a, m), swapped(n, e, e1, i, j), swapped(n, m, m1, i, j)
    ensures gj(R, n, e1, a, m1)
{
    let o = |r: int| if r == i { j } else if r == j { i } else { r };
    assert forall|r: int| 0 <= r < n implies roweq(n, e1, r, e, #[trigger] o(r)) && roweq(n, m1, r, m, o(r)) by {}
    assert forall|r: int, k: int| 0 <= r < n && 0 <= k < n implies rowdot(R, n, e1, r, colv(a, k)) == #[trigger] m1(r, k) by {
        rowdot_ext(R, n, e1, r, e, o(r), colv(a, k), colv(a, k)); assert(m1(r, k) == m(o(r), k)); assert(rowdot(R, n, e, o(r), colv(a, k)) == m(o(r), k));
    }
    assert forall|v: spec_fn(int) -> T| #[trigger] kills(R, n, e1, v) implies zerov(R, n, v) by {
        assert forall|r: int| 0 <= r < n implies #[trigger] rowdot(R, n, e, r, v) == R.zero by {
            assert(rowdot(R, n, e1, o(r), v) == R.zero); assert(o(o(r)) == r); rowdot_ext(R, n, e1, o(r), e, r, v, v);
        }
        assert(kills(R, n, e, v));
    }
}
pub proof fn gj_start<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>)
    requires R.ring(), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] e(i, j) == delta(R, i, j)
    ensures gj(R, n, e, a, a)
{
    assert forall|i: int, v: spec_fn(int) -> T| 0 <= i < n implies #[trigger] rowdot(R, n, e, i, v) == v(i) by { rowdot_one(R, n, e, i, v); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rowdot(R, n, e, i, colv(a, j)) == #[trigger] a(i, j) by {}
    assert forall|v: spec_fn(int) -> T| #[trigger] kills(R, n, e, v) implies zerov(R, n, v) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == R.zero by { assert(rowdot(R, n, e, i, v) == R.zero); }
    }
}
/// row i of the identity
pub proof fn rowdot_one<T>(R: Rg<T>, n: nat, e: Mat<T>, i: int, v: spec_fn(int) -> T)
    requires R.ring(), 0 <= i < n, forall|k: int| 0 <= k < n ==> #[trigger] e(i, k) == delta(R, i, k)
    ensures rowdot(R, n, e, i, v) == v(i)
{
    let f = |k: int| R.m(e(i, k), v(k));
    assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == R.zero by { assert(e(i, k) == R.zero); R.m_zero(v(k)); }
    sum_one(R, n as int, i, f);
    assert(e(i, i) == R.one); R.m_one(v(i));
}
/// e * (a * w) == (e * a) * w
pub proof fn mm_assoc<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>, r: int, u: spec_fn(int) -> T, w: spec_fn(int) -> T)
    requires R.ring(), 0 <= r < n,
        forall|j: int| 0 <= j < n ==> #[trigger] m(r, j) == rowdot(R, n, e, r, colv(a, j)),
        forall|k: int| 0 <= k < n ==> #[trigger] u(k) == rowdot(R, n, a, k, w),
    ensures rowdot(R, n, e, r, u) == rowdot(R, n, m, r, w)
{
    let f = |k: int, l: int| R.m(e(r, k), R.m(a(k, l), w(l)));
    sum_swap(R, n as int, n as int, f);
    let x = |k: int| sum(R, n as int, |l: int| f(k, l));
    let y = |l: int| sum(R, n as int, |k: int| f(k, l));
    let p = |k: int| R.m(e(r, k), u(k));
    let q = |l: int| R.m(m(r, l), w(l));
    assert forall|k: int| 0 <= k < n implies #[trigger] p(k) == x(k) by {
        assert(u(k) == rowdot(R, n, a, k, w));
        let h = |l: int| f(k, l); let g = |l: int| R.m(a(k, l), w(l));
        assert forall|l: int| 0 <= l < n implies #[trigger] h(l) == R.m(e(r, k), g(l)) by {}
        sum_scale(R, n as int, h, e(r, k), g);
    }
    assert forall|l: int| 0 <= l < n implies #[trigger] q(l) == y(l) by {
        assert(m(r, l) == rowdot(R, n, e, r, colv(a, l)));
        let h = |k: int| f(k, l); let g = |k: int| R.m(e(r, k), colv(a, l)(k));
        assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == R.m(w(l), g(k)) by { id_rot(R, e(r, k), a(k, l), w(l)); }
        sum_scale(R, n as int, h, w(l), g);
        R.m_comm(w(l), m(r, l));
    }
    sum_ext(R, n as int, p, x); sum_ext(R, n as int, q, y);
}
@identity id_rot(a b c): a*(b*c) == c*(a*b)
@identity id_diff(a b): a - b == 0 + (a - b)
/// rowdot is additive in the vector: w == u - x
pub proof fn rowdot_minus<T>(R: Rg<T>, n: nat, e: Mat<T>, r: int, w: spec_fn(int) -> T, u: spec_fn(int) -> T, x: spec_fn(int) -> T)
    requires R.ring(), forall|k: int| 0 <= k < n ==> #[trigger] w(k) == R.s(u(k), x(k))
    ensures rowdot(R, n, e, r, w) == R.p(rowdot(R, n, e, r, u), R.m(R.neg(R.one), rowdot(R, n, e, r, x)))
{
    let h = |k: int| R.m(e(r, k), w(k)); let f = |k: int| R.m(e(r, k), u(k)); let g = |k: int| R.m(e(r, k), x(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == R.p(f(k), R.m(R.neg(R.one), g(k))) by { assert(w(k) == R.s(u(k), x(k))); id_minus(R, e(r, k), u(k), x(k)); }
    sum_lin(R, n as int, h, f, R.neg(R.one), g);
}
@identity id_minus(e u x): e*(u - x) == e*u + (0-1)*(e*x)
@identity id_cancel(a): a + (0-1)*a == 0
@identity id_self(a): a - a == 0
@identity id_szero(b c): b - 0*c == b
@identity id_zsub(c): 0 - 0*c == 0
pub proof fn s_zero<T>(R: Rg<T>, a: T, b: T) requires R.ring(), R.s(a, b) == R.zero ensures a == b { R.s_p(a, b); R.p_zero(b); }
/// elimination ended with the identity: e is the inverse of a, on both sides
pub proof fn gj_some<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>)
    requires R.ring(), gj(R, n, e, a, m), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] m(i, j) == delta(R, i, j)
    ensures is_inv(R, n, a, e)
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] rowdot(R, n, e, i, colv(a, j)) == delta(R, i, j) by { assert(m(i, j) == delta(R, i, j)); }
    assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] rowdot(R, n, a, i, colv(e, c)) == delta(R, i, c) by {
        let w = colv(e, c);
        let u = |k: int| rowdot(R, n, a, k, w);
        let x = |k: int| delta(R, k, c);
        let v = |k: int| R.s(u(k), x(k));
        assert forall|r: int| 0 <= r < n implies #[trigger] rowdot(R, n, e, r, v) == R.zero by {
            mm_assoc(R, n, e, a, m, r, u, w);
            rowdot_one(R, n, m, r, w);
            rowdot_minus(R, n, e, r, v, u, x);
            let f = |k: int| R.m(e(r, k), x(k));
            assert forall|k: int| 0 <= k < n && k != c implies #[trigger] f(k) == R.zero by { R.m_zero(e(r, k)); }
            sum_one(R, n as int, c, f); R.m_one(e(r, c));
            id_cancel(R, e(r, c));
        }
        assert(kills(R, n, e, v));
        assert(v(i) == R.zero);
        s_zero(R, u(i), x(i));
    }
}
/// no pivot in column i: a has no inverse
pub proof fn gj_none<T>(R: Rg<T>, n: nat, e: Mat<T>, a: Mat<T>, m: Mat<T>, i: int, b: Mat<T>)
    requires R.fld(), gj(R, n, e, a, m), 0 <= i < n,
        forall|r: int, c: int| 0 <= r < n && 0 <= c < i ==> #[trigger] m(r, c) == delta(R, r, c),
        forall|r: int| i <= r < n ==> #[trigger] m(r, i) == R.zero,
    ensures !is_inv(R, n, a, b)
{
    if is_inv(R, n, a, b) {
        let v = |k: int| if k < i { R.neg(m(k, i)) } else if k == i { R.one } else { R.zero };
        let w = |k: int| rowdot(R, n, a, k, v);
        assert forall|r: int| 0 <= r < n implies #[trigger] rowdot(R, n, e, r, w) == R.zero by {
            mm_assoc(R, n, e, a, m, r, w, v);
            let h = |k: int| R.m(m(r, k), v(k));
            let f = |k: int| if k == r && r < i { R.neg(m(r, i)) } else { R.zero };
            let g = |k: int| if k == i { m(r, i) } else { R.zero };
            assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == R.p(f(k), g(k)) by {
                R.m_zero(m(r, k)); R.m_zero(v(k)); R.m_one(m(r, k)); R.m_one(v(k)); R.p_zero(R.zero); R.p_zero(f(k)); R.p_zero(g(k));
                if k < i { assert(m(r, k) == delta(R, r, k)); }
            }
            sum_add(R, n as int, h, f, g);
            sum_one(R, n as int, i, g);
            if r < i { sum_one(R, n as int, r, f); R.s_p(R.zero, m(r, i)); }
            else { sum_zero(R, n as int, f); assert(m(r, i) == R.zero); R.p_zero(R.zero); }
        }
        assert(kills(R, n, e, w));
        let one = |p: int, q: int| delta(R, p, q);
        assert forall|j: int| 0 <= j < n implies #[trigger] one(i, j) == rowdot(R, n, b, i, colv(a, j)) by {}
        mm_assoc(R, n, b, a, one, i, w, v);
        rowdot_one(R, n, one, i, v);
        let f = |k: int| R.m(b(i, k), w(k));
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == R.zero by { assert(w(k) == R.zero); R.m_zero(b(i, k)); }
        sum_zero(R, n as int, f);
        R.one_zero();
    }
}
/// a / b is a * (1 / b)
pub proof fn div_is<T>(R: Rg<T>, a: T, b: T) requires R.fld(), b != R.zero ensures R.d(a, b) == R.m(a, R.d(R.one, b)) {
    let q = R.d(R.one, b);
    R.d_m(a, b); R.d_m(R.one, b);
    let (x, y) = (R.d(a, b), R.m(a, q));
    R.m_assoc(a, q, b); R.m_one(a);
    R.m_comm(q, b); R.m_assoc(x, b, q); R.m_assoc(y, b, q); R.m_one(x); R.m_one(y);
}

// --- small sizes -----------------------------------------------------------------------------------
pub open spec fn det2f<T>(R: Rg<T>, a: T, b: T, c: T, d: T) -> T { R.s(R.m(a, d), R.m(c, b)) }
@identity id_det1(a): 0 + a*(1*1) == a
@identity id_det2(a b c d): (0 + a*(1*d)) + c*((0-1)*b) == a*d - c*b
@identity id_det3(a b c d e f g h i): ((0 + a*(1*(e*i-h*f))) + d*((0-1)*(b*i-h*c))) + g*(1*(b*f-e*c)) == a*e*i + b*f*g + c*d*h - c*e*g - b*d*i - a*f*h
pub proof fn det1_is<T>(R: Rg<T>, m: Mat<T>) requires R.ring() ensures det(R, 1, m) == m(0, 0)
{ reveal_with_fuel(sum, 2); assert(det(R, 0, minor(m, 0, 0)) == R.one); assert(dterm(R, 1, m)(0) == R.m(m(0, 0), R.m(R.one, R.one))); id_det1(R, m(0, 0)); }
pub proof fn det2_is<T>(R: Rg<T>, m: Mat<T>) requires R.ring() ensures det(R, 2, m) == R.s(R.m(m(0, 0), m(1, 1)), R.m(m(1, 0), m(0, 1)))
{
    reveal_with_fuel(sum, 3); det1_is(R, minor(m, 0, 0)); det1_is(R, minor(m, 1, 0));
    id_det2(R, m(0, 0), m(0, 1), m(1, 0), m(1, 1));
}
pub open spec fn det3f<T>(R: Rg<T>, m: Mat<T>) -> T {
    let (a, b, c, d, e, f, g, h, i) = (m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2));
    R.s(R.s(R.s(R.p(R.p(R.m(R.m(a, e), i), R.m(R.m(b, f), g)), R.m(R.m(c, d), h)), R.m(R.m(c, e), g)), R.m(R.m(b, d), i)), R.m(R.m(a, f), h))
}
pub proof fn det3_is<T>(R: Rg<T>, m: Mat<T>) requires R.ring() ensures det(R, 3, m) == det3f(R, m)
{
    reveal_with_fuel(sum, 4); det2_is(R, minor(m, 0, 0)); det2_is(R, minor(m, 1, 0)); det2_is(R, minor(m, 2, 0));
    id_det3(R, m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2));
}
@identity id_mul2(a b c d e f g h): ((0 + a*e) + b*g)*((0 + c*f) + d*h) - ((0 + c*e) + d*g)*((0 + a*f) + b*h) == (a*d - c*b)*(e*h - g*f)
@identity id_one2(): 1*1 - 0*0 == 1
/// an invertible matrix of size 1, 2 or 3 has a non-zero determinant
pub proof fn singular1<T>(R: Rg<T>, a: Mat<T>, b: Mat<T>) requires R.fld(), a(0, 0) == R.zero ensures !is_inv(R, 1, a, b)
{
    if is_inv(R, 1, a, b) { reveal_with_fuel(sum, 2); assert(rowdot(R, 1, a, 0, colv(b, 0)) == delta(R, 0, 0)); R.m_zero(b(0, 0)); R.p_zero(R.zero); R.one_zero(); }
}
pub proof fn singular2<T>(R: Rg<T>, a: Mat<T>, b: Mat<T>) requires R.fld(), det(R, 2, a) == R.zero ensures !is_inv(R, 2, a, b)
{
    if is_inv(R, 2, a, b) {
        reveal_with_fuel(sum, 3);
        det2_is(R, a); det2_is(R, b);
        assert forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 implies #[trigger] delta(R, i, j) == R.p(R.p(R.zero, R.m(a(i, 0), b(0, j))), R.m(a(i, 1), b(1, j))) by { assert(rowdot(R, 2, a, i, colv(b, j)) == delta(R, i, j)); }
        id_mul2(R, a(0, 0), a(0, 1), a(1, 0), a(1, 1), b(0, 0), b(0, 1), b(1, 0), b(1, 1));
        assert(delta(R, 0, 0) == R.one && delta(R, 0, 1) == R.zero && delta(R, 1, 0) == R.zero && delta(R, 1, 1) == R.one);
        id_one2(R); R.m_zero(det(R, 2, b)); R.one_zero();
    }
}
/// the adjugate of a 3 x 3 matrix
pub open spec fn adj3<T>(R: Rg<T>, m: Mat<T>) -> Mat<T> {
    let (a, b, c, d, e, f, g, h, i) = (m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2));
    let w = |p: T, q: T, r: T, s: T| R.s(R.m(p, q), R.m(r, s));
    |x: int, y: int|
        if x == 0 { if y == 0 { w(e, i, f, h) } else if y == 1 { w(c, h, b, i) } else { w(b, f, c, e) } }
        else if x == 1 { if y == 0 { w(f, g, d, i) } else if y == 1 { w(a, i, c, g) } else { w(c, d, a, f) } }
        else { if y == 0 { w(d, h, e, g) } else if y == 1 { w(b, g, a, h) } else { w(a, e, b, d) } }
}
@identity id_ar00(a b c d e f g h i): ((0 + a*(e*i-f*h)) + b*(f*g-d*i)) + c*(d*h-e*g) == det3(a,b,c,d,e,f,g,h,i)
@identity id_al00(a b c d e f g h i): ((0 + (e*i-f*h)*a) + (c*h-b*i)*d) + (b*f-c*e)*g == det3(a,b,c,d,e,f,g,h,i)
@identity id_ar01(a b c d e f g h i): ((0 + a*(c*h-b*i)) + b*(a*i-c*g)) + c*(b*g-a*h) == 0
@identity id_al01(a b c d e f g h i): ((0 + (e*i-f*h)*b) + (c*h-b*i)*e) + (b*f-c*e)*h == 0
@identity id_ar02(a b c d e f g h i): ((0 + a*(b*f-c*e)) + b*(c*d-a*f)) + c*(a*e-b*d) == 0
@identity id_al02(a b c d e f g h i): ((0 + (e*i-f*h)*c) + (c*h-b*i)*f) + (b*f-c*e)*i == 0
@identity id_ar10(a b c d e f g h i): ((0 + d*(e*i-f*h)) + e*(f*g-d*i)) + f*(d*h-e*g) == 0
@identity id_al10(a b c d e f g h i): ((0 + (f*g-d*i)*a) + (a*i-c*g)*d) + (c*d-a*f)*g == 0
@identity id_ar11(a b c d e f g h i): ((0 + d*(c*h-b*i)) + e*(a*i-c*g)) + f*(b*g-a*h) == det3(a,b,c,d,e,f,g,h,i)
@identity id_al11(a b c d e f g h i): ((0 + (f*g-d*i)*b) + (a*i-c*g)*e) + (c*d-a*f)*h == det3(a,b,c,d,e,f,g,h,i)
@identity id_ar12(a b c d e f g h i): ((0 + d*(b*f-c*e)) + e*(c*d-a*f)) + f*(a*e-b*d) == 0
@identity id_al12(a b c d e f g h i): ((0 + (f*g-d*i)*c) + (a*i-c*g)*f) + (c*d-a*f)*i == 0
@identity id_ar20(a b c d e f g h i): ((0 + g*(e*i-f*h)) + h*(f*g-d*i)) + i*(d*h-e*g) == 0
@identity id_al20(a b c d e f g h i): ((0 + (d*h-e*g)*a) + (b*g-a*h)*d) + (a*e-b*d)*g == 0
@identity id_ar21(a b c d e f g h i): ((0 + g*(c*h-b*i)) + h*(a*i-c*g)) + i*(b*g-a*h) == 0
@identity id_al21(a b c d e f g h i): ((0 + (d*h-e*g)*b) + (b*g-a*h)*e) + (a*e-b*d)*h == 0
@identity id_ar22(a b c d e f g h i): ((0 + g*(b*f-c*e)) + h*(c*d-a*f)) + i*(a*e-b*d) == det3(a,b,c,d,e,f,g,h,i)
@identity id_al22(a b c d e f g h i): ((0 + (d*h-e*g)*c) + (b*g-a*h)*f) + (a*e-b*d)*i == det3(a,b,c,d,e,f,g,h,i)

/// a * adj(a) == adj(a) * a == det(a) * identity
pub proof fn adj3_ok<T>(R: Rg<T>, m: Mat<T>)
    requires R.ring()
    ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] rowdot(R, 3, m, i, colv(adj3(R, m), j)) == (if i == j { det(R, 3, m) } else { R.zero }),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] rowdot(R, 3, adj3(R, m), i, colv(m, j)) == (if i == j { det(R, 3, m) } else { R.zero })
{
    reveal_with_fuel(sum, 4); det3_is(R, m);
    let (a, b, c, d, e, f, g, h, i) = (m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2));
    id_ar00(R, a, b, c, d, e, f, g, h, i);
    id_ar01(R, a, b, c, d, e, f, g, h, i);
    id_ar02(R, a, b, c, d, e, f, g, h, i);
    id_ar10(R, a, b, c, d, e, f, g, h, i);
    id_ar11(R, a, b, c, d, e, f, g, h, i);
    id_ar12(R, a, b, c, d, e, f, g, h, i);
    id_ar20(R, a, b, c, d, e, f, g, h, i);
    id_ar21(R, a, b, c, d, e, f, g, h, i);
    id_ar22(R, a, b, c, d, e, f, g, h, i);
    id_al00(R, a, b, c, d, e, f, g, h, i);
    id_al01(R, a, b, c, d, e, f, g, h, i);
    id_al02(R, a, b, c, d, e, f, g, h, i);
    id_al10(R, a, b, c, d, e, f, g, h, i);
    id_al11(R, a, b, c, d, e, f, g, h, i);
    id_al12(R, a, b, c, d, e, f, g, h, i);
    id_al20(R, a, b, c, d, e, f, g, h, i);
    id_al21(R, a, b, c, d, e, f, g, h, i);
    id_al22(R, a, b, c, d, e, f, g, h, i);
}
@identity id_cb(a b c d e f j k l m n o): (((0 + a*j) + b*l) + c*n)*(((0 + d*k) + e*m) + f*o) - (((0 + a*k) + b*m) + c*o)*(((0 + d*j) + e*l) + f*n) == (a*e - b*d)*(j*m - k*l) + (c*d - a*f)*(k*n - j*o) + (b*f - c*e)*(l*o - m*n)
pub proof fn singular3<T>(R: Rg<T>, a: Mat<T>, b: Mat<T>) requires R.fld(), det(R, 3, a) == R.zero ensures !is_inv(R, 3, a, b)
{
    if is_inv(R, 3, a, b) {
        let x = adj3(R, a);
        let one = |p: int, q: int| delta(R, p, q);
        adj3_ok(R, a);
        // adj(a) == (b * a) * adj(a) == b * (a * adj(a)) == 0
        assert forall|i: int, c: int| 0 <= i < 3 && 0 <= c < 3 implies #[trigger] x(i, c) == R.zero by {
            let u = |k: int| R.zero;
            assert forall|j: int| 0 <= j < 3 implies #[trigger] one(i, j) == rowdot(R, 3, b, i, colv(a, j)) by {}
            assert forall|k: int| 0 <= k < 3 implies #[trigger] u(k) == rowdot(R, 3, a, k, colv(x, c)) by {}
            mm_assoc(R, 3, b, a, one, i, u, colv(x, c));
            rowdot_one(R, 3, one, i, colv(x, c));
            let f = |k: int| R.m(b(i, k), u(k));
            assert forall|k: int| 0 <= k < 3 implies #[trigger] f(k) == R.zero by { R.m_zero(b(i, k)); }
            sum_zero(R, 3, f);
        }
        reveal_with_fuel(sum, 4);
        assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] delta(R, i, j) == R.p(R.p(R.p(R.zero, R.m(a(i, 0), b(0, j))), R.m(a(i, 1), b(1, j))), R.m(a(i, 2), b(2, j))) by { assert(rowdot(R, 3, a, i, colv(b, j)) == delta(R, i, j)); }
        assert(delta(R, 0, 0) == R.one && delta(R, 0, 1) == R.zero && delta(R, 1, 0) == R.zero && delta(R, 1, 1) == R.one);
        id_cb(R, a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2), b(0, 0), b(0, 1), b(1, 0), b(1, 1), b(2, 0), b(2, 1));
        assert(x(2, 2) == R.zero); assert(x(1, 2) == R.zero); assert(x(0, 2) == R.zero);
        let (p, q, r) = (R.s(R.m(b(0, 0), b(1, 1)), R.m(b(0, 1), b(1, 0))), R.s(R.m(b(0, 1), b(2, 0)), R.m(b(0, 0), b(2, 1))), R.s(R.m(b(1, 0), b(2, 1)), R.m(b(1, 1), b(2, 0))));
        R.m_zero(p); R.m_zero(q); R.m_zero(r); R.p_zero(R.zero);
        id_one2(R); R.one_zero();
    }
}
/// y is d times an inverse of a, so y / d is one
pub proof fn adj_inv<T>(R: Rg<T>, n: nat, a: Mat<T>, y: Mat<T>, x: Mat<T>, d: T)
    requires R.fld(), d != R.zero,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] rowdot(R, n, a, i, colv(y, j)) == (if i == j { d } else { R.zero }),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] rowdot(R, n, y, i, colv(a, j)) == (if i == j { d } else { R.zero }),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] x(i, j) == R.d(y(i, j), d),
    ensures is_inv(R, n, a, x)
{
    let q = R.d(R.one, d);
    R.d_m(R.one, d); R.m_zero(q); R.m_comm(q, d);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] rowdot(R, n, a, i, colv(x, j)) == delta(R, i, j) by {
        let f = |k: int| R.m(a(i, k), colv(x, j)(k)); let g = |k: int| R.m(a(i, k), colv(y, j)(k));
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == R.m(q, g(k)) by { assert(x(k, j) == R.d(y(k, j), d)); div_is(R, y(k, j), d); id_rot(R, a(i, k), y(k, j), q); }
        sum_scale(R, n as int, f, q, g);
        assert(rowdot(R, n, a, i, colv(y, j)) == (if i == j { d } else { R.zero }));
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] rowdot(R, n, x, i, colv(a, j)) == delta(R, i, j) by {
        assert forall|k: int| 0 <= k < n implies #[trigger] x(i, k) == R.m(y(i, k), q) by { assert(x(i, k) == R.d(y(i, k), d)); div_is(R, y(i, k), d); }
        rowdot_scale(R, n, x, y, i, q, colv(a, j));
        assert(rowdot(R, n, y, i, colv(a, j)) == (if i == j { d } else { R.zero }));
    }
}
pub open spec fn adj2<T>(R: Rg<T>, m: Mat<T>) -> Mat<T> {
    |x: int, y: int| if x == 0 { if y == 0 { m(1, 1) } else { R.neg(m(0, 1)) } } else { if y == 0 { R.neg(m(1, 0)) } else { m(0, 0) } }
}
@identity id_br00(a b c d): (0 + a*d) + b*(0-c) == a*d - c*b
@identity id_br01(a b c d): (0 + a*(0-b)) + b*a == 0
@identity id_br10(a b c d): (0 + c*d) + d*(0-c) == 0
@identity id_br11(a b c d): (0 + c*(0-b)) + d*a == a*d - c*b
@identity id_bl00(a b c d): (0 + d*a) + (0-b)*c == a*d - c*b
@identity id_bl01(a b c d): (0 + d*b) + (0-b)*d == 0
@identity id_bl10(a b c d): (0 + (0-c)*a) + a*c == 0
@identity id_bl11(a b c d): (0 + (0-c)*b) + a*d == a*d - c*b
pub proof fn adj2_ok<T>(R: Rg<T>, m: Mat<T>)
    requires R.ring()
    ensures forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] rowdot(R, 2, m, i, colv(adj2(R, m), j)) == (if i == j { det(R, 2, m) } else { R.zero }),
        forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] rowdot(R, 2, adj2(R, m), i, colv(m, j)) == (if i == j { det(R, 2, m) } else { R.zero })
{
    reveal_with_fuel(sum, 3); det2_is(R, m);
    let (a, b, c, d) = (m(0, 0), m(0, 1), m(1, 0), m(1, 1));
    id_br00(R, a, b, c, d); id_br01(R, a, b, c, d); id_br10(R, a, b, c, d); id_br11(R, a, b, c, d);
    id_bl00(R, a, b, c, d); id_bl01(R, a, b, c, d); id_bl10(R, a, b, c, d); id_bl11(R, a, b, c, d);
}
pub proof fn inv1_ok<T>(R: Rg<T>, a: Mat<T>, x: Mat<T>) requires R.fld(), a(0, 0) != R.zero, x(0, 0) == R.d(R.one, a(0, 0)) ensures is_inv(R, 1, a, x)
{ reveal_with_fuel(sum, 2); let (p, q) = (a(0, 0), x(0, 0)); R.d_m(R.one, p); R.m_comm(p, q); R.p_zero(R.m(p, q)); }
