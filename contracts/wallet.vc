@default C17
@raw wallet
/// account i of the wallet, as derived from its root
pub open spec fn derived(root: XPrv, i: u32) -> Option<StacksAccount> {
    match bip32::child(root, i) { Some(x) => Some(StacksAccount { ext: x, index: i }), None => None }
}
/// every cached account is the derived one
pub open spec fn w_ok(w: StacksWallet) -> bool { forall|i: u32| #[trigger] w.accounts@.contains_key(i) ==> derived(w.ext, i) == Some(w.accounts@[i]) }
/// the root of a phrase
pub open spec fn root_of(s: Seq<char>) -> Option<XPrv> {
    match bip39::phrase(s) {
        Some(m) => match bip32::path_of("m/44'/5757'/0'/0"@) { Some(p) => bip32::at_path(bip39::seed(m, ""@), p), None => None },
        None => None,
    }
}
@fn wallet::StacksAccount::new
@spec
    ensures ret.ext == ext, ret.index == index,
@fn wallet::StacksAccount::derive
@spec
    ensures match ret { Ok(a) => derived(*ext, index) == Some(a), Err(_) => derived(*ext, index) is None },
@fn wallet::StacksAccount::get_address
@spec
    ensures match ret { Ok(s) => sb(s@) == addr_enc(hash160(bip32::xpub(self.ext)), version as u8), Err(_) => false },
@for X in StacksAccount StacksWallet
@fn wallet::$X::private_key
@spec
    ensures match ret { Ok(k) => secp256k1::sk_parse(bip32::xsec(self.ext)) == Some(k), Err(_) => secp256k1::sk_parse(bip32::xsec(self.ext)) is None },
@fn wallet::$X::public_key
@spec
    ensures match ret { Ok(k) => secp256k1::pk_parse(bip32::xpub(self.ext)) == Some(k), Err(_) => secp256k1::pk_parse(bip32::xpub(self.ext)) is None },
@end
@fn wallet::StacksWallet::new
@spec
    ensures ret.ext == ext, ret.accounts == accounts,
@fn wallet::StacksWallet::from_secret_key
@spec
    ensures match ret { Ok(w) => w_ok(w) && root_of(sk.iv()) == Some(w.ext), Err(_) => root_of(sk.iv()) is None },
@fn wallet::StacksWallet::set_account
@spec
    ensures final(self).ext == old(self).ext, final(self).accounts@ == old(self).accounts@.insert(index, account),
@fn wallet::StacksWallet::get_account
@spec
    ensures final(self).ext == old(self).ext,
        w_ok(*old(self)) ==> w_ok(*final(self)),
        w_ok(*old(self)) ==> (match ret { Ok(a) => derived(old(self).ext, index) == Some(a), Err(_) => derived(old(self).ext, index) is None }),
