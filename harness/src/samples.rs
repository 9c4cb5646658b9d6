//! Structs that use every kind of field the derive macro supports, alone and together. The check verifies the
//! macro's expansion of these definitions; they are samples of the unbounded set of structs a user may write.
use stacks_rs::derive::FromTuple;
#[derive(FromTuple)]
pub struct OneInt {
    #[stacks(key = "some-int")]
    pub a: i128,
}
#[derive(FromTuple)]
pub struct OneUInt {
    #[stacks(key = "some-uint")]
    pub a: u128,
}
#[derive(FromTuple)]
pub struct OneBool {
    #[stacks(key = "flag")]
    pub a: bool,
}
#[derive(FromTuple)]
pub struct OneText {
    #[stacks(key = "text")]
    pub a: String,
}
#[derive(FromTuple)]
pub struct OneBytes {
    #[stacks(key = "bytes")]
    pub a: Vec<u8>,
}
#[derive(FromTuple)]
pub struct OneList {
    #[stacks(key = "list")]
    pub a: Vec<String>,
}
#[derive(FromTuple)]
pub struct OneOptInt {
    #[stacks(key = "opt-int")]
    pub a: Option<i128>,
}
#[derive(FromTuple)]
pub struct OneOptUInt {
    #[stacks(key = "opt-uint")]
    pub a: Option<u128>,
}
#[derive(FromTuple)]
pub struct OneOptText {
    #[stacks(key = "opt-text")]
    pub a: Option<String>,
}
#[derive(FromTuple)]
pub struct OneOkInt {
    #[stacks(key = "ok-int", response)]
    pub a: i128,
}
#[derive(FromTuple)]
pub struct OneOkUInt {
    #[stacks(key = "ok-uint", response)]
    pub a: u128,
}
#[derive(FromTuple)]
pub struct PlainInts {
    #[stacks(key = "x", response = false)]
    pub a: i128,
    #[stacks(key = "y", response = false)]
    pub b: u128,
}
#[derive(FromTuple)]
pub struct Swapped {
    #[stacks(key = "b")]
    pub a: i128,
    #[stacks(key = "a")]
    pub b: i128,
    #[stacks(key = "d")]
    pub c: std::vec::Vec<u8>,
    #[stacks(key = "c")]
    pub d: Option<i128>,
}
#[derive(FromTuple)]
pub struct Many {
    #[stacks(key = "k1")]
    pub f1: i128,
    #[stacks(key = "k2", response)]
    pub f2: u128,
    #[stacks(key = "k3")]
    pub f3: bool,
    #[stacks(key = "k4")]
    pub f4: String,
    #[stacks(key = "k5")]
    pub f5: Vec<u8>,
    #[stacks(key = "k6")]
    pub f6: Option<u128>,
    #[stacks(key = "k7")]
    pub f7: Option<String>,
    #[stacks(key = "k8")]
    pub f8: u128,
    #[stacks(key = "k9", response)]
    pub f9: i128,
    #[stacks(key = "k10")]
    pub f10: Option<i128>,
}
#[derive(FromTuple)]
pub struct Nested {
    #[stacks(key = "inner")]
    pub a: OneInt,
    #[stacks(key = "other")]
    pub b: PlainInts,
    #[stacks(key = "some-int")]
    pub c: i128,
}
/// one key used by two fields
#[derive(FromTuple)]
pub struct SharedKey {
    #[stacks(key = "tokenId")]
    pub r#type: String,
    #[stacks(key = "tokenId")]
    pub a: u128,
}
/// keys with upper-case, non-ASCII and special characters, an empty one and a long one
#[derive(FromTuple)]
pub struct OddKeys {
    #[stacks(key = "tokenId")]
    pub a: u128,
    #[stacks(key = "")]
    pub b: i128,
    #[stacks(key = "Schlüssel \"x\\y\" {}")]
    pub c: Vec<u8>,
    #[stacks(key = " lead_under-score!? ")]
    pub d: Option<u128>,
    #[stacks(key = "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789")]
    pub e: bool,
}
/// the kinds of field in another order, with what does not apply to them set explicitly
#[derive(FromTuple)]
pub struct Mixed {
    #[stacks(key = "k1")]
    pub inner: PlainInts,
    #[stacks(key = "k2", response = false)]
    pub opt: Option<String>,
    #[stacks(key = "k3", response = false)]
    pub texts: Vec<String>,
    #[stacks(key = "k4")]
    pub text: String,
    #[stacks(key = "k5", response = true)]
    pub ok: i128,
    #[stacks(key = "k6")]
    pub bytes: Vec<u8>,
    #[stacks(key = "k7", response)]
    pub ok2: u128,
    #[stacks(key = "k8")]
    pub num: i128,
    #[stacks(key = "k9")]
    pub flag: bool,
}
/// three levels, with the same keys on each
#[derive(FromTuple)]
pub struct Deep {
    #[stacks(key = "x")]
    pub a: Middle,
    #[stacks(key = "y")]
    pub b: u128,
}
#[derive(FromTuple)]
pub struct Middle {
    #[stacks(key = "y")]
    pub b: PlainInts,
    #[stacks(key = "x")]
    pub a: PlainInts,
}
/// uses of the construction macros
pub mod uses {
    use stacks_rs::clarity;
    use stacks_rs::clarity::*;
    use stacks_rs::post_condition;
    use stacks_rs::transaction::*;
    pub fn m_int(x: i128) -> Int { clarity!(Int, x) }
    pub fn m_uint(x: u128) -> UInt { clarity!(UInt, x) }
    pub fn m_buffer(x: &[u8]) -> Buffer { clarity!(Buffer, x) }
    pub fn m_true() -> True { clarity!(True) }
    pub fn m_false() -> False { clarity!(False) }
    pub fn m_standard(x: &str) -> PrincipalStandard { clarity!(PrincipalStandard, x) }
    pub fn m_contract(x: &str, y: &str) -> PrincipalContract { clarity!(PrincipalContract, x, y) }
    pub fn m_ok(x: Int) -> ResponseOk { clarity!(ResponseOk, x) }
    pub fn m_err(x: UInt) -> ResponseErr { clarity!(ResponseErr, x) }
    pub fn m_some(x: Tuple) -> OptionalSome { clarity!(OptionalSome, x) }
    pub fn m_none() -> OptionalNone { clarity!(OptionalNone) }
    pub fn m_ascii(x: &str) -> StringAscii { clarity!(StringAscii, x) }
    pub fn m_utf8(x: &str) -> StringUtf8 { clarity!(StringUtf8, x) }
    pub fn m_name(x: &str) -> LengthPrefixedStr { clarity!(LengthPrefixedStr, x) }
    pub fn m_list0() -> List { clarity!(List) }
    pub fn m_list1(a: Int) -> List { clarity!(List, a) }
    pub fn m_list3(a: Int, b: Buffer, c: List) -> List { clarity!(List, a, b, c) }
    pub fn m_tuple0() -> Tuple { clarity!(Tuple) }
    pub fn m_tuple1(k: &str, a: UInt) -> Tuple { clarity!(Tuple, (k, a)) }
    pub fn m_tuple3(k: &str, a: UInt, l: &str, b: Tuple, m: &str, c: True) -> Tuple { clarity!(Tuple, (k, a), (l, b), (m, c)) }
    pub fn m_args0() -> FnArguments { clarity!(FnArguments) }
    pub fn m_args1(a: Int) -> FnArguments { clarity!(FnArguments, a) }
    pub fn m_args3(a: Int, b: Buffer, c: List) -> FnArguments { clarity!(FnArguments, a, b, c) }
    pub fn m_conditions0() -> PostConditions { post_condition!() }
    pub fn m_condition(a: PrincipalStandard, n: u64, c: ConditionCode) -> Box<dyn Condition> { post_condition!(STXCondition, a, n, c) }
    pub fn m_conditions(a: PrincipalStandard, b: PrincipalContract, n: u64, m: u64, v: UInt, c: ConditionCode, i: AssetInfo, p: PrincipalStandard, j: AssetInfo) -> PostConditions {
        post_condition!((STXCondition, a, n, c), (FungibleCondition, b, m, ConditionCode::LTE, i), (NonFungibleCondition, p, v, ConditionCode::HasNot, j))
    }
}
