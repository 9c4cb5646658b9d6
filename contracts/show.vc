@default C22
@raw cv
/// the text of a value
pub open spec fn show(v: V) -> Seq<char> decreases v {
    match v {
        V::Int(x) => dec(x),
        V::UInt(x) => "u"@ + dec(x),
        V::Buf(b) => "0x"@ + hex(b),
        V::True => "true"@,
        V::False => "false"@,
        V::Std(a) => a,
        V::Con(a, n) => a + "."@ + n,
        V::Ok(x) => "(ok "@ + show(*x) + ")"@,
        V::Err(x) => "(err "@ + show(*x) + ")"@,
        V::None => "none"@,
        V::Some(x) => "(some "@ + show(*x) + ")"@,
        V::List(s) => "(list "@ + show_l(s) + ")"@,
        V::Tup(s) => "(tuple "@ + show_t(s) + ")"@,
        V::Ascii(s) => "\""@ + s + "\""@,
        V::Utf8(s) => "u\""@ + s + "\""@,
        V::Name(s) => s,
        V::Args(s) => "(fn-args "@ + show_l(s) + ")"@,
    }
}
/// the items, separated by single spaces
pub open spec fn show_l(s: Seq<V>) -> Seq<char> decreases s { if s.len() == 0 { seq![] } else if s.len() == 1 { show(s.last()) } else { show_l(s.drop_last()) + " "@ + show(s.last()) } }
pub open spec fn show_kv(k: Seq<char>, v: Seq<char>) -> Seq<char> { "("@ + k + " "@ + v + ")"@ }
pub open spec fn show_t(s: Seq<(Seq<char>, V)>) -> Seq<char> decreases s { if s.len() == 0 { seq![] } else if s.len() == 1 { show_kv(s.last().0, show(s.last().1)) } else { show_t(s.drop_last()) + " "@ + show_kv(s.last().0, show(s.last().1)) } }
/// equality of values: the same text and the same encoding
pub open spec fn veq(a: V, b: V) -> bool { show(a) =~= show(b) && enc_ok(a) == enc_ok(b) && (enc_ok(a) ==> ser(a) =~= ser(b)) }
@raw clarity
/// what equality gives: a value equals its copies, and equal values that can be encoded are the same
/// value up to the spelling of addresses (by the injectivity theorem of the encoding)
pub proof fn theorem_equality(a: V, b: V)
    ensures veq(a, a), a == b ==> veq(a, b), veq(a, b) == veq(b, a), veq(a, b) && enc_ok(a) && proper(a) && proper(b) ==> canon(a) == canon(b),
{
    if veq(a, b) && enc_ok(a) && proper(a) && proper(b) { theorem_parse_ser(a, seq![]); theorem_parse_ser(b, seq![]); }
}
/// Display of the closed world: fmt_dyn is verified by dispatch to the fmt functions below; the impls of
/// the formatting traits are the same functions (std's machinery and the recursive knot are trusted)
impl DynClarity {
    pub fn fmt_dyn(&self, f: &mut __Fmt) -> (ret: Result<(), __FmtErr>)
        ensures ret.is_ok() ==> final(f)@ == old(f)@ + show(dv(*self)) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
    {
        match self {
            DynClarity::Int(x) => x.fmt(f), DynClarity::UInt(x) => x.fmt(f), DynClarity::Buffer(x) => x.fmt(f), DynClarity::True(x) => x.fmt(f), DynClarity::False(x) => x.fmt(f),
            DynClarity::PrincipalStandard(x) => x.fmt(f), DynClarity::PrincipalContract(x) => x.fmt(f), DynClarity::ResponseOk(x) => x.fmt(f), DynClarity::ResponseErr(x) => x.fmt(f),
            DynClarity::OptionalSome(x) => x.fmt(f), DynClarity::OptionalNone(x) => x.fmt(f), DynClarity::List(x) => x.fmt(f), DynClarity::Tuple(x) => x.fmt(f),
            DynClarity::StringAscii(x) => x.fmt(f), DynClarity::StringUtf8(x) => x.fmt(f), DynClarity::LengthPrefixedStr(x) => x.fmt(f), DynClarity::FnArguments(x) => x.fmt(f),
        }
    }
}
impl ShowV for DynClarity { open spec fn shown(&self) -> Seq<char> { show(dv(*self)) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome OptionalNone List Tuple StringAscii StringUtf8 LengthPrefixedStr FnArguments
@raw clarity
impl ShowV for $X { open spec fn shown(&self) -> Seq<char> { show(dv(DynClarity::$X(*self))) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ToStrV for $X { open spec fn tcs(&self) -> Seq<char> { show(dv(DynClarity::$X(*self))) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
@fn clarity::$X::eq
@spec
    ensures ret == veq(dv(DynClarity::$X(*self)), dv(DynClarity::$X(*other))),
@end
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome OptionalNone StringAscii StringUtf8 LengthPrefixedStr
@fn clarity::<Display for $X>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + show(dv(DynClarity::$X(*self))) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@end
@for X,P in List|"(list~"@ FnArguments|"(fn-args~"@
@fn clarity::<Display for $X>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + show(dv(DynClarity::$X(*self))) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@at start
    let ghost q = dvs(self.__value);
    let ghost o = f@; let ghost fr = f.refused();
    proof { lemma_dvs(self.__value); assert(q.take(0) =~= seq![]); }
@loop 0
    invariant f@ =~= o + $P + show_l(q.take(__i0 as int)), f.refused() == fr,
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1));
        assert(q.take(__i0 as int).last() == dv(*__v0@[__i0 - 1]));
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@end
@fn clarity::<Display for Tuple>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + show(dv(DynClarity::Tuple(*self))) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@at start
    let ghost q = dvt(self.__value);
    let ghost o = f@; let ghost fr = f.refused();
    proof { lemma_dvt(self.__value); assert(q.take(0) =~= seq![]); }
@loop 0
    invariant f@ =~= o + "(tuple "@ + show_t(q.take(__i0 as int)), f.refused() == fr,
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1));
        assert(q.take(__i0 as int).last() == (__v0@[__i0 - 1].0@, dv(*__v0@[__i0 - 1].1)));
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
