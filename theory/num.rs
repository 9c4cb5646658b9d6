// Positional numerals in base b, least significant digit first.
pub open spec fn pw(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { b * pw(b, (n - 1) as nat) } }
/// value of little-endian digits
pub open spec fn lev(b: int, s: Seq<int>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] + b * lev(b, s.drop_first()) }
}
/// minimal little-endian digits of n
pub open spec fn led(b: int, n: int) -> Seq<int> decreases n via led_dec {
    if n <= 0 || b <= 1 { seq![] } else { seq![n % b] + led(b, n / b) }
}
#[via_fn]
proof fn led_dec(b: int, n: int) {
    if !(n <= 0 || b <= 1) { assert(0 <= n / b < n) by (nonlinear_arith) requires n > 0, b > 1; }
}
pub open spec fn digs(b: int, s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < b }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// number of leading zeros
pub open spec fn lz(s: Seq<int>) -> nat decreases s.len() {
    if s.len() == 0 || s[0] != 0 { 0 } else { 1 + lz(s.drop_first()) }
}
pub open spec fn zeros(n: nat) -> Seq<int> { Seq::new(n, |i: int| 0int) }
pub open spec fn ints(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
/// most-significant-first value
pub open spec fn bev(b: int, s: Seq<int>) -> int { lev(b, rev(s)) }
/// base conversion keeping leading zeros (the scheme of c32 and base58)
pub open spec fn conv(b: int, c: int, s: Seq<int>) -> Seq<int> { zeros(lz(s)) + rev(led(c, bev(b, s))) }

pub proof fn lemma_pw_pos(b: int, n: nat) requires b > 0 ensures pw(b, n) > 0 decreases n {
    if n > 0 { lemma_pw_pos(b, (n - 1) as nat); assert(b * pw(b, (n - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, pw(b, (n - 1) as nat) > 0; }
}
pub proof fn lemma_pw_add(b: int, m: nat, n: nat) ensures pw(b, m + n) == pw(b, m) * pw(b, n) decreases m {
    if m == 0 { assert(pw(b, 0) == 1); } else {
        lemma_pw_add(b, (m - 1) as nat, n);
        let x = pw(b, (m - 1) as nat); let y = pw(b, n);
        assert((m + n - 1) as nat == (m - 1) as nat + n);
        assert(b * (x * y) == (b * x) * y) by (nonlinear_arith);
    }
}
pub proof fn lemma_lev_nonneg(b: int, s: Seq<int>) requires b > 0, digs(b, s) ensures 0 <= lev(b, s) < pw(b, s.len()) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_first();
        assert(digs(b, t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < b by { assert(t[i] == s[i + 1]); } }
        lemma_lev_nonneg(b, t);
        let x = lev(b, t); let p = pw(b, t.len());
        assert(0 <= s[0] < b);
        assert(0 <= s[0] + b * x < b * p) by (nonlinear_arith) requires 0 <= s[0] < b, 0 <= x < p, b > 0;
    }
}
pub proof fn lemma_lev_push(b: int, s: Seq<int>, x: int) ensures lev(b, s.push(x)) == lev(b, s) + x * pw(b, s.len()) decreases s.len() {
    reveal_with_fuel(lev, 2); reveal_with_fuel(pw, 2);
    if s.len() == 0 {
        assert(s.push(x).drop_first() =~= Seq::<int>::empty());
        assert(lev(b, s.push(x)) == x);
    } else {
        let t = s.drop_first();
        assert(s.push(x).drop_first() =~= t.push(x));
        lemma_lev_push(b, t, x);
        let p = pw(b, t.len());
        assert(b * (lev(b, t) + x * p) == b * lev(b, t) + x * (b * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_lev_add(b: int, s: Seq<int>, t: Seq<int>) ensures lev(b, s + t) == lev(b, s) + lev(b, t) * pw(b, s.len()) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); assert(lev(b, t) == 0); }
    else {
        let u = t.drop_last(); let x = t.last();
        assert(s + t =~= (s + u).push(x)); assert(t =~= u.push(x));
        lemma_lev_push(b, s + u, x); lemma_lev_push(b, u, x); lemma_lev_add(b, s, u);
        lemma_pw_add(b, s.len(), u.len());
        let (a, c, p, q) = (lev(b, u), x, pw(b, s.len()), pw(b, u.len()));
        assert(a * p + c * (p * q) == (a + c * q) * p) by (nonlinear_arith);
    }
}
pub proof fn lemma_lev_zeros(b: int, n: nat) ensures lev(b, zeros(n)) == 0 decreases n {
    if n > 0 { assert(zeros(n).drop_first() =~= zeros((n - 1) as nat)); lemma_lev_zeros(b, (n - 1) as nat); assert(b * 0 == 0); }
}
/// digits without a most significant zero are the minimal digits of their value
pub proof fn lemma_led_lev(b: int, s: Seq<int>)
    requires b > 1, digs(b, s), s.len() > 0 ==> s.last() != 0
    ensures led(b, lev(b, s)) =~= s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert(digs(b, t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < b by { assert(t[i] == s[i + 1]); } }
        lemma_led_lev(b, t); lemma_lev_nonneg(b, t);
        let x = lev(b, t); let n = s[0] + b * x;
        assert(0 <= s[0] < b);
        assert(b * x == x * b) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, b, x, s[0]);
        if n == 0 {
            assert(x == 0 && s[0] == 0) by (nonlinear_arith) requires s[0] + b * x == 0, s[0] >= 0, x >= 0, b > 1;
            assert(t.len() == 0);
            assert(s.last() == s[0]);
            assert(false);
        }
        assert(n > 0) by (nonlinear_arith) requires n != 0, n == s[0] + b * x, s[0] >= 0, x >= 0, b > 1;
        assert(seq![s[0]] + t =~= s);
    }
}
pub proof fn lemma_led(b: int, n: int)
    requires b > 1, n >= 0
    ensures digs(b, led(b, n)), lev(b, led(b, n)) == n, led(b, n).len() > 0 ==> led(b, n).last() != 0, (n == 0) == (led(b, n).len() == 0)
    decreases n
{
    if n > 0 {
        assert(0 <= n / b < n) by (nonlinear_arith) requires n > 0, b > 1;
        let t = led(b, n / b);
        lemma_led(b, n / b);
        let s = led(b, n);
        assert(s == seq![n % b] + t);
        assert(s.drop_first() =~= t);
        assert(0 <= n % b < b && n == n % b + b * (n / b)) by (nonlinear_arith) requires b > 1, n > 0;
        assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < b by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if t.len() > 0 { assert(s.last() == t.last()); } else { assert(n / b == 0); assert(s.last() == n % b); assert(b * 0 == 0); }
    }
}
pub proof fn lemma_rev_rev<T>(s: Seq<T>) ensures rev(rev(s)) =~= s {}
pub proof fn lemma_digs_rev(b: int, s: Seq<int>) requires digs(b, s) ensures digs(b, rev(s)) {
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] rev(s)[i] < b by { assert(rev(s)[i] == s[s.len() - 1 - i]); }
}
pub proof fn lemma_lz(s: Seq<int>)
    ensures lz(s) <= s.len(), forall|i: int| 0 <= i < lz(s) ==> s[i] == 0, lz(s) < s.len() ==> s[lz(s) as int] != 0
    decreases s.len()
{
    if s.len() > 0 && s[0] == 0 {
        let t = s.drop_first(); lemma_lz(t);
        assert forall|i: int| 0 <= i < lz(s) implies s[i] == 0 by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
pub proof fn lemma_lz_is(s: Seq<int>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] == 0, n < s.len() ==> s[n as int] != 0
    ensures lz(s) == n
    decreases s.len()
{
    if n > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < n - 1 implies t[i] == 0 by { assert(t[i] == s[i + 1]); }
        lemma_lz_is(t, (n - 1) as nat);
    }
}
/// value ignores leading zeros
pub proof fn lemma_bev_strip(b: int, s: Seq<int>)
    ensures bev(b, s) == bev(b, s.skip(lz(s) as int))
{
    lemma_lz(s);
    let n = lz(s);
    let t = s.skip(n as int);
    assert(rev(s) =~= rev(t) + zeros(n));
    lemma_lev_add(b, rev(t), zeros(n)); lemma_lev_zeros(b, n);
    assert(0 * pw(b, rev(t).len()) == 0);
}
/// the digits of the value are the input without leading zeros
pub proof fn lemma_strip_unique(b: int, s: Seq<int>)
    requires b > 1, digs(b, s)
    ensures rev(led(b, bev(b, s))) =~= s.skip(lz(s) as int)
{
    lemma_lz(s); lemma_bev_strip(b, s);
    let t = s.skip(lz(s) as int);
    assert(digs(b, t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < b by { assert(t[i] == s[i + lz(s)]); } }
    lemma_digs_rev(b, t);
    if t.len() > 0 { assert(rev(t).last() == t[0]); assert(t[0] == s[lz(s) as int]); }
    lemma_led_lev(b, rev(t));
    lemma_rev_rev(t);
}
pub proof fn lemma_conv(b: int, c: int, s: Seq<int>)
    requires b > 1, c > 1, digs(b, s)
    ensures digs(c, conv(b, c, s)), lz(conv(b, c, s)) == lz(s), bev(c, conv(b, c, s)) == bev(b, s), conv(c, b, conv(b, c, s)) =~= s
{
    lemma_digs_rev(b, s); lemma_lev_nonneg(b, rev(s));
    let n = bev(b, s);
    lemma_led(c, n); lemma_digs_rev(c, led(c, n));
    let d = rev(led(c, n));
    let r = conv(b, c, s);
    let k = lz(s);
    assert(r == zeros(k) + d);
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < c by { if i >= k { assert(r[i] == d[i - k]); } }
    if d.len() > 0 { assert(r[k as int] == d[0]); assert(d[0] == led(c, n).last()); }
    lemma_lz_is(r, k);
    lemma_bev_strip(c, r);
    assert(r.skip(k as int) =~= d);
    lemma_rev_rev(led(c, n));
    assert(bev(c, r) == n);
    lemma_strip_unique(b, s);
    lemma_lz(s);
    assert(conv(c, b, r) =~= zeros(k) + s.skip(k as int));
    assert(zeros(k) + s.skip(k as int) =~= s);
}
pub proof fn lemma_ints_digs(s: Seq<u8>) ensures digs(256, ints(s)) {}
pub proof fn lemma_ints_inj(s: Seq<u8>, t: Seq<u8>) requires ints(s) == ints(t) ensures s =~= t {
    assert(s.len() == ints(s).len()); assert(t.len() == ints(t).len());
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(ints(s)[i] == s[i] as int); assert(ints(t)[i] == t[i] as int); }
}
pub proof fn lemma_led_len(b: int, n: int, k: nat) requires b > 1, 0 <= n < pw(b, k) ensures led(b, n).len() <= k decreases k {
    if n > 0 {
        if k == 0 { assert(false); }
        let p = pw(b, (k - 1) as nat);
        assert(0 <= n / b < p) by (nonlinear_arith) requires 0 <= n < b * p, b > 1;
        lemma_led_len(b, n / b, (k - 1) as nat);
    }
}
pub proof fn lemma_pw_mono(b: int, c: int, k: nat) requires 0 < b <= c ensures pw(b, k) <= pw(c, k) decreases k {
    if k > 0 { lemma_pw_mono(b, c, (k - 1) as nat); lemma_pw_pos(b, (k - 1) as nat);
        let (x, y) = (pw(b, (k - 1) as nat), pw(c, (k - 1) as nat));
        assert(b * x <= c * y) by (nonlinear_arith) requires 0 < b <= c, 0 < x <= y; }
}
/// converting to a larger base does not lengthen the text
pub proof fn lemma_conv_len(b: int, c: int, s: Seq<int>) requires 1 < b <= c, digs(b, s) ensures conv(b, c, s).len() <= s.len() {
    lemma_lz(s); lemma_bev_strip(b, s);
    let t = s.skip(lz(s) as int);
    assert(digs(b, t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < b by { assert(t[i] == s[i + lz(s)]); } }
    lemma_digs_rev(b, t);
    lemma_lev_nonneg(b, rev(t)); lemma_pw_mono(b, c, t.len());
    lemma_led_len(c, bev(b, s), t.len());
}
pub proof fn lemma_bev_push(b: int, s: Seq<int>, x: int) ensures bev(b, s.push(x)) == bev(b, s) * b + x {
    let r = rev(s.push(x));
    assert(r.drop_first() =~= rev(s)); assert(r[0] == x);
    assert(b * lev(b, rev(s)) == lev(b, rev(s)) * b) by (nonlinear_arith);
}
pub proof fn lemma_bev_empty(b: int, s: Seq<int>) requires s.len() == 0 ensures bev(b, s) == 0 { assert(rev(s).len() == 0); }
/// a leading non-zero digit makes the value positive
pub proof fn lemma_bev_pos(b: int, s: Seq<int>) requires b > 1, digs(b, s), s.len() > 0, s[0] != 0 ensures bev(b, s) > 0 {
    lemma_digs_rev(b, s); lemma_lev_nonneg(b, rev(s));
    if bev(b, s) == 0 { assert(rev(s).last() == s[0]); lemma_led_lev(b, rev(s)); }
}
pub proof fn lemma_bev_bound(b: int, s: Seq<int>) requires b > 1, digs(b, s) ensures 0 <= bev(b, s) < pw(b, s.len()) { lemma_digs_rev(b, s); lemma_lev_nonneg(b, rev(s)); }
