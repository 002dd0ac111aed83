// ---------------------------------------------------------------- permutations as histories of exchanges
pub open spec fn sw(p: int, j: int, i: int) -> int { if i == p { j } else if i == j { p } else { i } }
pub open spec fn swp(p: Seq<int>, a: int, b: int) -> Seq<int> { p.update(a, p[b]).update(b, p[a]) }
pub open spec fn idp(m: int) -> Seq<int> { Seq::new(m as nat, |i: int| i) }
// the permutation reached by a history of exchanges of two different lines
pub open spec fn after_swaps(m: int, h: Seq<(int, int)>) -> Seq<int>
  decreases h.len()
{ if h.len() == 0 { idp(m) } else { swp(after_swaps(m, h.drop_last()), h.last().0, h.last().1) } }
pub open spec fn swaps_ok(m: int, h: Seq<(int, int)>) -> bool { forall|k: int| 0 <= k < h.len() ==> 0 <= (#[trigger] h[k]).0 < m && 0 <= h[k].1 < m && h[k].0 != h[k].1 }
pub open spec fn perm_of(p: Seq<int>, pos: bool, m: int) -> bool {
  exists|h: Seq<(int, int)>| swaps_ok(m, h) && p == #[trigger] after_swaps(m, h) && pos == (h.len() % 2 == 0)
}
pub open spec fn ints(p: Seq<usize>) -> Seq<int> { p.map_values(|x: usize| x as int) }
pub open spec fn is_perm(p: Seq<int>, m: int) -> bool {
  &&& p.len() == m
  &&& forall|i: int| 0 <= i < m ==> 0 <= #[trigger] p[i] < m
  &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j ==> #[trigger] p[i] != #[trigger] p[j]
}
pub proof fn swaps_perm(m: int, h: Seq<(int, int)>)
  requires swaps_ok(m, h), m >= 0,
  ensures is_perm(after_swaps(m, h), m),
  decreases h.len(),
{
  if h.len() > 0 {
    assert(swaps_ok(m, h.drop_last()));
    swaps_perm(m, h.drop_last());
    assert(h.last() == h[h.len() - 1]);
  }
}
pub proof fn perm_swap(p: Seq<int>, pos: bool, m: int, a: int, b: int)
  requires perm_of(p, pos, m), 0 <= a < m, 0 <= b < m, a != b,
  ensures perm_of(swp(p, a, b), !pos, m),
{
  let h = choose|h: Seq<(int, int)>| swaps_ok(m, h) && p == #[trigger] after_swaps(m, h) && pos == (h.len() % 2 == 0);
  let h2 = h.push((a, b));
  assert(h2.drop_last() =~= h);
  assert(swaps_ok(m, h2)) by { assert forall|k: int| 0 <= k < h2.len() implies 0 <= (#[trigger] h2[k]).0 < m && 0 <= h2[k].1 < m && h2[k].0 != h2[k].1 by { if k < h.len() { assert(h2[k] == h[k]); } } }
  assert(after_swaps(m, h2) == swp(p, a, b));
}
pub proof fn perm_is(p: Seq<int>, pos: bool, m: int)
  requires perm_of(p, pos, m), m >= 0,
  ensures is_perm(p, m),
{
  let h = choose|h: Seq<(int, int)>| swaps_ok(m, h) && p == #[trigger] after_swaps(m, h) && pos == (h.len() % 2 == 0);
  swaps_perm(m, h);
}
pub proof fn hit(m: int, h: Seq<(int, int)>, r: int) -> (i: int)
  requires swaps_ok(m, h), 0 <= r < m,
  ensures 0 <= i < m, after_swaps(m, h)[i] == r, after_swaps(m, h).len() == m,
  decreases h.len(),
{
  if h.len() == 0 { r }
  else {
    let h2 = h.drop_last();
    assert(swaps_ok(m, h2)) by { assert forall|k: int| 0 <= k < h2.len() implies 0 <= (#[trigger] h2[k]).0 < m && 0 <= h2[k].1 < m && h2[k].0 != h2[k].1 by { assert(h2[k] == h[k]); } }
    let i = hit(m, h2, r);
    assert(h.last() == h[h.len() - 1]);
    let (x, y) = h.last();
    sw(x, y, i)
  }
}
pub proof fn perm_hit(p: Seq<int>, pos: bool, m: int, r: int) -> (i: int)
  requires perm_of(p, pos, m), 0 <= r < m,
  ensures 0 <= i < m, p[i] == r,
{
  let h = choose|h: Seq<(int, int)>| swaps_ok(m, h) && p == #[trigger] after_swaps(m, h) && pos == (h.len() % 2 == 0);
  hit(m, h, r)
}
