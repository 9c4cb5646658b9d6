// normal form of concatenations (proved), so that byte layouts match whatever the pushes and extends that made them
pub broadcast proof fn lemma_empty_add<A>(s: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + s) == s { assert(Seq::<A>::empty() + s =~= s); }
pub broadcast proof fn lemma_add_empty<A>(s: Seq<A>) ensures #[trigger] (s + Seq::<A>::empty()) == s { assert(s + Seq::<A>::empty() =~= s); }
pub broadcast proof fn lemma_push_add<A>(s: Seq<A>, a: A) ensures #[trigger] s.push(a) == s + seq![a] { assert(s.push(a) =~= s + seq![a]); }
pub broadcast proof fn lemma_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_skip<A>(s: Seq<A>, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.skip(n) == s.subrange(n, s.len() as int) { assert(s.skip(n) =~= s.subrange(n, s.len() as int)); }
pub broadcast proof fn lemma_take<A>(s: Seq<A>, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.take(n) == s.subrange(0, n) { assert(s.take(n) =~= s.subrange(0, n)); }
pub broadcast proof fn lemma_subsub<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast group group_sq { lemma_empty_add, lemma_add_empty, lemma_push_add, lemma_assoc, lemma_skip, lemma_take, lemma_subsub }
