@default C08
@raw hex
impl<'a> HexIterator<'a> { pub open spec fn rest(&self) -> Seq<u8> { self.iter@ } }
@fn hex::HexIterator::new
@spec
    ensures match ret { Ok(it) => sb(str@).len() % 2 == 0 && it.rest() == sb(str@), Err(_) => sb(str@).len() % 2 != 0 },
@fn hex::HexIterator::next
@retty Option<Result<u8, Error>>
@spec
    requires old(self).rest().len() % 2 == 0,
    ensures
        old(self).rest().len() == 0 ==> ret is None,
        old(self).rest().len() > 0 ==> match ret {
            None => false,
            Some(Err(_)) => hexv(old(self).rest()[0]) < 0 || hexv(old(self).rest()[1]) < 0,
            Some(Ok(b)) => hexv(old(self).rest()[0]) >= 0 && hexv(old(self).rest()[1]) >= 0
                && b as int == hexv(old(self).rest()[0]) * 16 + hexv(old(self).rest()[1]) && final(self).rest() =~= old(self).rest().skip(2),
        },
@at tail
    assert(hi < 16 && lo < 16 ==> (hi << 4) | lo == hi * 16 + lo) by (bit_vector);
@fn hex::hex_to_bytes
@spec
    ensures match ret {
        Ok(v) => hex_ok(sb(str.iv())) && v@ =~= unhex(sb(str.iv())),
        Err(_) => !hex_ok(sb(str.iv())),
    },
@loop 0
    invariant
        sb(str@).len() % 2 == 0,
        2 * buff@.len() + __it0.rest().len() == sb(str@).len(),
        __it0.rest() =~= sb(str@).skip(2 * buff@.len() as int),
        forall|i: int| 0 <= i < 2 * buff@.len() ==> hexv(#[trigger] sb(str@)[i]) >= 0,
        forall|i: int| 0 <= i < buff@.len() ==> #[trigger] buff@[i] as int == hexv(sb(str@)[2 * i]) * 16 + hexv(sb(str@)[2 * i + 1]),
    decreases __it0.rest().len(),
@fn hex::bytes_to_hex
@spec
    ensures ret@ =~= hex(slice.bv()),
@loop 0
    invariant
        buff@.len() == 2 * __i0,
        forall|i: int| 0 <= i < buff@.len() ==> #[trigger] buff@[i] == hex(slice@)[i],
