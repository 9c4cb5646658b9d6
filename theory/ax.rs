// facts about library types
pub broadcast axiom fn axiom_str_bytes(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;
/// no slice of bytes is longer than isize::MAX (guaranteed by Rust for every reference)
pub broadcast axiom fn axiom_slice_len(s: &[u8]) ensures (#[trigger] s@).len() <= isize::MAX;
/// byte slices that compare equal have the same contents
pub broadcast proof fn lemma_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) ==> a@ =~= b@ {}
