@default C21
@for F,E in m_int|ret.__value~==~x m_uint|ret.__value~==~x m_buffer|ret.__value@~==~x@ m_true|ret.__value m_false|!ret.__value m_standard|ret.__value@~==~x@ m_contract|ret.__value.0@~==~x@~&&~ret.__value.1@~==~y@ m_ok|*ret.__value~==~DynClarity::Int(x) m_err|*ret.__value~==~DynClarity::UInt(x) m_some|*ret.__value~==~DynClarity::Tuple(x) m_none|ret.__value~is~None m_ascii|ret.__value@~==~x@ m_utf8|ret.__value@~==~x@ m_name|ret.__value@~==~x@ m_list0|ret.__value@.len()~==~0 m_tuple0|ret.__value@.len()~==~0 m_args0|ret.__value@.len()~==~0
@fn uses::$F
@spec
    ensures $E,
@end
@for F in list args
@fn uses::m_$F1
@spec
    ensures ret.__value@.len() == 1, *ret.__value@[0] == DynClarity::Int(a),
@fn uses::m_$F3
@spec
    ensures ret.__value@.len() == 3, *ret.__value@[0] == DynClarity::Int(a), *ret.__value@[1] == DynClarity::Buffer(b), *ret.__value@[2] == DynClarity::List(c),
@end
@fn uses::m_tuple1
@spec
    ensures ret.__value@.len() == 1, ret.__value@[0].0@ == k@, *ret.__value@[0].1 == DynClarity::UInt(a),
@fn uses::m_tuple3
@spec
    ensures ret.__value@.len() == 3, ret.__value@[0].0@ == k@, *ret.__value@[0].1 == DynClarity::UInt(a), ret.__value@[1].0@ == l@, *ret.__value@[1].1 == DynClarity::Tuple(b), ret.__value@[2].0@ == m@, *ret.__value@[2].1 == DynClarity::True(c),
@default C11
@fn uses::m_conditions0
@spec
    ensures ret.__value@.len() == 0,
@fn uses::m_condition
@spec
    ensures kv(*ret) == K::Stx(dv(DynClarity::PrincipalStandard(a)), n, c),
@fn uses::m_conditions
@spec
    ensures ret.__value@.len() == 3, kv(*ret.__value@[0]) == K::Stx(dv(DynClarity::PrincipalStandard(a)), n, c), kv(*ret.__value@[1]) == K::Ft(dv(DynClarity::PrincipalContract(b)), m, ConditionCode::LTE, asv(i)), kv(*ret.__value@[2]) == K::Nft(dv(DynClarity::PrincipalStandard(p)), dv(DynClarity::UInt(v)), ConditionCode::HasNot, asv(j)),
