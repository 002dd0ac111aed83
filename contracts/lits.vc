@verbatim
// ---------------------------------------------------------------- C29: the m! literal
// Any literal: R rows, row r with lens[r] >= 1 expressions; evx(r, c, log) stands for the c-th expression of row r, which may do
// anything to the state (log grows by (r, c)) and give anything, also depending on when it is evaluated.
pub struct LogX { pub t: Ghost<Seq<(int, int)>> }
pub uninterp spec fn valx(r: int, c: int, at: int) -> E;
#[verifier::external_body]
pub fn evx(r: usize, c: usize, log: &mut LogX) -> (x: E)
  ensures final(log).t@ == old(log).t@.push((r as int, c as int)), x == valx(r as int, c as int, old(log).t@.len() as int),
{ unimplemented!() }
// how many expressions the first k rows hold
#[verifier::opaque]
pub open spec fn psum(l: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { psum(l, k - 1) + l[k - 1] } }
// the first n positions of row r, all positions of the first k rows, in the written order
#[verifier::opaque]
pub open spec fn row(r: int, n: int) -> Seq<(int, int)> { Seq::new(n as nat, |c: int| (r, c)) }
#[verifier::opaque]
pub open spec fn evs(l: Seq<usize>, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::empty() } else { evs(l, k - 1) + row(k - 1, l[k - 1] as int) } }
pub open spec fn lens_ok(l: Seq<usize>) -> bool { l.len() > 0 && (forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] >= 1) && psum(l, l.len() as int) <= isize::MAX }
pub open spec fn lens_eq(l: Seq<usize>) -> bool { forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] == l[0] }
pub proof fn lens_in(l: Seq<usize>, k: int)
  requires lens_ok(l), 0 <= k < l.len(),
  ensures l[k] >= 1, psum(l, k + 1) == psum(l, k) + l[k], evs(l, k + 1) == evs(l, k) + row(k, l[k] as int), psum(l, k) >= k,
{ reveal(psum); reveal(evs); psum_ge(l, k) }
pub proof fn psum_ge(l: Seq<usize>, k: int)
  requires lens_ok(l), 0 <= k <= l.len(),
  ensures psum(l, k) >= k,
  decreases k,
{ reveal(psum); if k > 0 { psum_ge(l, k - 1); assert(l[k - 1] >= 1); } }
pub proof fn psum_up(l: Seq<usize>, a: int, b: int)
  requires lens_ok(l), 0 <= a <= b <= l.len(),
  ensures psum(l, a) <= psum(l, b),
  decreases b,
{ reveal(psum); if a < b { psum_up(l, a, b - 1); assert(l[b - 1] >= 1); } }
pub proof fn evs_len(l: Seq<usize>, k: int)
  requires lens_ok(l), 0 <= k <= l.len(),
  ensures evs(l, k).len() == psum(l, k),
  decreases k,
{ reveal(psum); reveal(evs); reveal(row); if k > 0 { evs_len(l, k - 1); assert(l[k - 1] >= 1); } }
pub proof fn lens_start(l: Seq<usize>)
  ensures psum(l, 0) == 0, forall|t: Seq<(int, int)>| #![trigger t.len()] t.len() == 0 ==> t == evs(l, 0), forall|d: Seq<E>, t: Seq<(int, int)>| #![trigger built(d, t)] d.len() == 0 && t.len() == 0 ==> built(d, t),
{
  reveal(psum); reveal(evs); reveal(built);
  assert forall|t: Seq<(int, int)>| #![trigger t.len()] t.len() == 0 implies t == evs(l, 0) by { assert(t =~= evs(l, 0)); }
}
#[verifier::opaque]
pub open spec fn built(d: Seq<E>, t: Seq<(int, int)>) -> bool { d.len() == t.len() && forall|k: int| #![trigger d[k]] 0 <= k < d.len() ==> d[k] == valx(t[k].0, t[k].1, k) }
pub proof fn built_at(d: Seq<E>, t: Seq<(int, int)>, k: int)
  requires built(d, t), 0 <= k < d.len(),
  ensures d[k] == valx(t[k].0, t[k].1, k),
{ reveal(built); }
pub proof fn built_push(l: Seq<usize>, d: Seq<E>, t: Seq<(int, int)>, r: int, c: int)
  requires built(d, t), t == evs(l, r) + row(r, c), c >= 0,
  ensures built(d.push(valx(r, c, t.len() as int)), t.push((r, c))), t.push((r, c)) == evs(l, r) + row(r, c + 1),
{ reveal(built); reveal(row); assert(t.push((r, c)) =~= evs(l, r) + row(r, c + 1)); }
pub proof fn row_start(l: Seq<usize>, r: int)
  ensures evs(l, r) == evs(l, r) + row(r, 0), forall|c: int| #![trigger row(r, c)] c >= 0 ==> row(r, c).len() == c,
{ reveal(row); assert(evs(l, r) =~= evs(l, r) + row(r, 0)); }
pub proof fn built_len(d: Seq<E>, t: Seq<(int, int)>)
  requires built(d, t),
  ensures d.len() == t.len(),
{ reveal(built); }
// rows of one length: the expression at row i, column j comes at i * c + j
pub proof fn evs_rect(l: Seq<usize>, k: int)
  requires lens_ok(l), lens_eq(l), 0 <= k <= l.len(),
  ensures psum(l, k) == k * l[0], evs(l, k).len() == k * l[0],
    forall|i: int, j: int| #![trigger evs(l, k)[i * l[0] + j]] 0 <= i < k && 0 <= j < l[0] ==> evs(l, k)[i * l[0] + j] == (i, j),
  decreases k,
{
  reveal(psum); reveal(evs); reveal(row);
  let c = l[0] as int;
  if k > 0 {
    evs_rect(l, k - 1);
    assert(l[k - 1] == l[0]);
    assert((k - 1) * c + c == k * c) by (nonlinear_arith);
    assert forall|i: int, j: int| #![trigger evs(l, k)[i * l[0] + j]] 0 <= i < k && 0 <= j < l[0] implies evs(l, k)[i * l[0] + j] == (i, j) by {
      if i < k - 1 {
        assert(i * c + j < (k - 1) * c) by (nonlinear_arith) requires i < k - 1, j < c, c > 0;
        assert(i * c + j >= 0) by (nonlinear_arith) requires i >= 0, j >= 0, c > 0;
        assert(evs(l, k - 1)[i * l[0] + j] == (i, j));
      } else { assert(i == k - 1); }
    }
  } else { assert(0 * c == 0) by (nonlinear_arith); }
}
// the number of columns the macro works out: all expressions over the rows
pub proof fn evs_cols(l: Seq<usize>)
  requires lens_ok(l),
  ensures psum(l, l.len() as int) >= l.len(), l.len() > 0,
    lens_eq(l) ==> psum(l, l.len() as int) / l.len() as int == l[0] && psum(l, l.len() as int) == l.len() * l[0],
{
  psum_ge(l, l.len() as int);
  if lens_eq(l) {
    evs_rect(l, l.len() as int);
    let (n, c) = (l.len() as int, l[0] as int);
    assert((n * c) / n == c) by (nonlinear_arith) requires n > 0;
  }
}
@endverbatim
@macros macros.rs
@litall C29
  requires
    acc() ==> lens_eq(lens__@),
    lens_ok(lens__@), old(log__).t@.len() == 0,
  ensures
    lens_eq(lens__@),
    r.shaped(lens__@.len() as int, lens__@[0] as int),
    final(log__).t@ == evs(lens__@, lens__@.len() as int),
    built(r.data@, final(log__).t@),
%%
  proof { evs_cols(lens__@); evs_len(lens__@, lens__@.len() as int); lens_in(lens__@, 0); lens_start(lens__@); }
@verbatim
// what lit_all's contract says, element by element
pub fn lit_meaning(lens: &Vec<usize>, log: &mut LogX) -> (r: Matrix<E>)
  requires acc() ==> lens_eq(lens@), lens_ok(lens@), old(log).t@.len() == 0,
  ensures
    lens_eq(lens@), r.shaped(lens@.len() as int, lens@[0] as int),
    forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < lens@.len() && 0 <= j < lens@[0] ==> r.at(i, j) == valx(i, j, i * lens@[0] + j),
    final(log).t@.len() == lens@.len() * lens@[0],
    forall|i: int, j: int| #![trigger final(log).t@[i * lens@[0] + j]] 0 <= i < lens@.len() && 0 <= j < lens@[0] ==> final(log).t@[i * lens@[0] + j] == (i, j),
{
  let r = lit_all(lens, log);
  proof {
    let (n, c) = (lens@.len() as int, lens@[0] as int);
    evs_rect(lens@, n);
    assert forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < n && 0 <= j < c implies r.at(i, j) == valx(i, j, i * c + j) by {
      assert(evs(lens@, n)[i * lens@[0] + j] == (i, j));
      assert(0 <= i * c + j < n * c) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < c;
      built_at(r.data@, log.t@, i * c + j);
    }
  }
  r
}
// The same for single shapes, through rustc's own expansion of the macros: ev(k, log) is the k-th expression.
pub struct Log { pub t: Ghost<Seq<int>> }
pub uninterp spec fn val(k: int, at: int) -> E;
#[verifier::external_body]
pub fn ev(k: usize, log: &mut Log) -> (r: E)
  ensures final(log).t@ == old(log).t@.push(k as int), r == val(k as int, old(log).t@.len() as int),
{ unimplemented!() }
@endverbatim
@lit 1 C29
@lit 2 C29
@lit 3 C29
@lit 4 C29
@lit 5 C29
@lit 1,1 C29
@lit 2,2 C29
@lit 3,3 C29
@lit 4,4 C29
@lit 5,5 C29
@lit 1,1,1 C29
@lit 2,2,2 C29
@lit 3,3,3 C29
@lit 4,4,4 C29
@lit 5,5,5 C29
@lit 1,1,1,1 C29
@lit 2,2,2,2 C29
@lit 3,3,3,3 C29
@lit 4,4,4,4 C29
@lit 5,5,5,5 C29
@lit 1,1,1,1,1 C29
@lit 2,2,2,2,2 C29
@lit 3,3,3,3,3 C29
@lit 4,4,4,4,4 C29
@lit 5,5,5,5,5 C29
@lit 1,1,1,1,1,1 C29
@lit 6 C29
@lit 6,6 C29
@lit 2,2,2,2,2,2 C29
@lit 1,1,1,1,1,1,1 C29
@lit 7 C29
@lit 7,7 C29
@lit 2,2,2,2,2,2,2 C29
@lit 1,1,1,1,1,1,1,1 C29
@lit 8 C29
@lit 8,8 C29
@lit 2,2,2,2,2,2,2,2 C29
@lit 1,1,1,1,1,1,1,1,1 C29
@lit 9 C29
@lit 9,9 C29
@lit 2,2,2,2,2,2,2,2,2 C29
@lit 1,2 C29
@lit 1,3 C29
@lit 1,4 C29
@lit 1,5 C29
@lit 2,1 C29
@lit 2,3 C29
@lit 2,4 C29
@lit 2,5 C29
@lit 3,1 C29
@lit 3,2 C29
@lit 3,4 C29
@lit 3,5 C29
@lit 4,1 C29
@lit 4,2 C29
@lit 4,3 C29
@lit 4,5 C29
@lit 5,1 C29
@lit 5,2 C29
@lit 5,3 C29
@lit 5,4 C29
@lit 1,1,2 C29
@lit 1,1,3 C29
@lit 1,1,4 C29
@lit 1,2,1 C29
@lit 1,2,2 C29
@lit 1,2,3 C29
@lit 1,2,4 C29
@lit 1,3,1 C29
@lit 1,3,2 C29
@lit 1,3,3 C29
@lit 1,3,4 C29
@lit 1,4,1 C29
@lit 1,4,2 C29
@lit 1,4,3 C29
@lit 1,4,4 C29
@lit 2,1,1 C29
@lit 2,1,2 C29
@lit 2,1,3 C29
@lit 2,1,4 C29
@lit 2,2,1 C29
@lit 2,2,3 C29
@lit 2,2,4 C29
@lit 2,3,1 C29
@lit 2,3,2 C29
@lit 2,3,3 C29
@lit 2,3,4 C29
@lit 2,4,1 C29
@lit 2,4,2 C29
@lit 2,4,3 C29
@lit 2,4,4 C29
@lit 3,1,1 C29
@lit 3,1,2 C29
@lit 3,1,3 C29
@lit 3,1,4 C29
@lit 3,2,1 C29
@lit 3,2,2 C29
@lit 3,2,3 C29
@lit 3,2,4 C29
@lit 3,3,1 C29
@lit 3,3,2 C29
@lit 3,3,4 C29
@lit 3,4,1 C29
@lit 3,4,2 C29
@lit 3,4,3 C29
@lit 3,4,4 C29
@lit 4,1,1 C29
@lit 4,1,2 C29
@lit 4,1,3 C29
@lit 4,1,4 C29
@lit 4,2,1 C29
@lit 4,2,2 C29
@lit 4,2,3 C29
@lit 4,2,4 C29
@lit 4,3,1 C29
@lit 4,3,2 C29
@lit 4,3,3 C29
@lit 4,3,4 C29
@lit 4,4,1 C29
@lit 4,4,2 C29
@lit 4,4,3 C29
@lit 1,1,1,2 C29
@lit 1,1,1,3 C29
@lit 1,1,2,1 C29
@lit 1,1,2,2 C29
@lit 1,1,2,3 C29
@lit 1,1,3,1 C29
@lit 1,1,3,2 C29
@lit 1,1,3,3 C29
@lit 1,2,1,1 C29
@lit 1,2,1,2 C29
@lit 1,2,1,3 C29
@lit 1,2,2,1 C29
@lit 1,2,2,2 C29
@lit 1,2,2,3 C29
@lit 1,2,3,1 C29
@lit 1,2,3,2 C29
@lit 1,2,3,3 C29
@lit 1,3,1,1 C29
@lit 1,3,1,2 C29
@lit 1,3,1,3 C29
@lit 1,3,2,1 C29
@lit 1,3,2,2 C29
@lit 1,3,2,3 C29
@lit 1,3,3,1 C29
@lit 1,3,3,2 C29
@lit 1,3,3,3 C29
@lit 2,1,1,1 C29
@lit 2,1,1,2 C29
@lit 2,1,1,3 C29
@lit 2,1,2,1 C29
@lit 2,1,2,2 C29
@lit 2,1,2,3 C29
@lit 2,1,3,1 C29
@lit 2,1,3,2 C29
@lit 2,1,3,3 C29
@lit 2,2,1,1 C29
@lit 2,2,1,2 C29
@lit 2,2,1,3 C29
@lit 2,2,2,1 C29
@lit 2,2,2,3 C29
@lit 2,2,3,1 C29
@lit 2,2,3,2 C29
@lit 2,2,3,3 C29
@lit 2,3,1,1 C29
@lit 2,3,1,2 C29
@lit 2,3,1,3 C29
@lit 2,3,2,1 C29
@lit 2,3,2,2 C29
@lit 2,3,2,3 C29
@lit 2,3,3,1 C29
@lit 2,3,3,2 C29
@lit 2,3,3,3 C29
@lit 3,1,1,1 C29
@lit 3,1,1,2 C29
@lit 3,1,1,3 C29
@lit 3,1,2,1 C29
@lit 3,1,2,2 C29
@lit 3,1,2,3 C29
@lit 3,1,3,1 C29
@lit 3,1,3,2 C29
@lit 3,1,3,3 C29
@lit 3,2,1,1 C29
@lit 3,2,1,2 C29
@lit 3,2,1,3 C29
@lit 3,2,2,1 C29
@lit 3,2,2,2 C29
@lit 3,2,2,3 C29
@lit 3,2,3,1 C29
@lit 3,2,3,2 C29
@lit 3,2,3,3 C29
@lit 3,3,1,1 C29
@lit 3,3,1,2 C29
@lit 3,3,1,3 C29
@lit 3,3,2,1 C29
@lit 3,3,2,2 C29
@lit 3,3,2,3 C29
@lit 3,3,3,1 C29
@lit 3,3,3,2 C29
@lit 3,2,2,2,2 C29
@lit 1,2,2,2,2 C29
@lit 2,3,2,2,2 C29
@lit 2,1,2,2,2 C29
@lit 2,2,3,2,2 C29
@lit 2,2,1,2,2 C29
@lit 2,2,2,3,2 C29
@lit 2,2,2,1,2 C29
@lit 2,2,2,2,3 C29
@lit 2,2,2,2,1 C29
@lit 3,1,2,2,2 C29
@lit 2,3,1,2,2 C29
@lit 2,2,3,1,2 C29
@lit 2,2,2,3,1 C29
@lit 3,2,2,2,2,2 C29
@lit 1,2,2,2,2,2 C29
@lit 2,3,2,2,2,2 C29
@lit 2,1,2,2,2,2 C29
@lit 2,2,3,2,2,2 C29
@lit 2,2,1,2,2,2 C29
@lit 2,2,2,3,2,2 C29
@lit 2,2,2,1,2,2 C29
@lit 2,2,2,2,3,2 C29
@lit 2,2,2,2,1,2 C29
@lit 2,2,2,2,2,3 C29
@lit 2,2,2,2,2,1 C29
@lit 3,1,2,2,2,2 C29
@lit 2,3,1,2,2,2 C29
@lit 2,2,3,1,2,2 C29
@lit 2,2,2,3,1,2 C29
@lit 2,2,2,2,3,1 C29
@lit 3,2,2,2,2,2,2 C29
@lit 1,2,2,2,2,2,2 C29
@lit 2,3,2,2,2,2,2 C29
@lit 2,1,2,2,2,2,2 C29
@lit 2,2,3,2,2,2,2 C29
@lit 2,2,1,2,2,2,2 C29
@lit 2,2,2,3,2,2,2 C29
@lit 2,2,2,1,2,2,2 C29
@lit 2,2,2,2,3,2,2 C29
@lit 2,2,2,2,1,2,2 C29
@lit 2,2,2,2,2,3,2 C29
@lit 2,2,2,2,2,1,2 C29
@lit 2,2,2,2,2,2,3 C29
@lit 2,2,2,2,2,2,1 C29
@lit 3,1,2,2,2,2,2 C29
@lit 2,3,1,2,2,2,2 C29
@lit 2,2,3,1,2,2,2 C29
@lit 2,2,2,3,1,2,2 C29
@lit 2,2,2,2,3,1,2 C29
@lit 2,2,2,2,2,3,1 C29
@lit 3,2,2,2,2,2,2,2 C29
@lit 1,2,2,2,2,2,2,2 C29
@lit 2,3,2,2,2,2,2,2 C29
@lit 2,1,2,2,2,2,2,2 C29
@lit 2,2,3,2,2,2,2,2 C29
@lit 2,2,1,2,2,2,2,2 C29
@lit 2,2,2,3,2,2,2,2 C29
@lit 2,2,2,1,2,2,2,2 C29
@lit 2,2,2,2,3,2,2,2 C29
@lit 2,2,2,2,1,2,2,2 C29
@lit 2,2,2,2,2,3,2,2 C29
@lit 2,2,2,2,2,1,2,2 C29
@lit 2,2,2,2,2,2,3,2 C29
@lit 2,2,2,2,2,2,1,2 C29
@lit 2,2,2,2,2,2,2,3 C29
@lit 2,2,2,2,2,2,2,1 C29
@lit 3,1,2,2,2,2,2,2 C29
@lit 2,3,1,2,2,2,2,2 C29
@lit 2,2,3,1,2,2,2,2 C29
@lit 2,2,2,3,1,2,2,2 C29
@lit 2,2,2,2,3,1,2,2 C29
@lit 2,2,2,2,2,3,1,2 C29
@lit 2,2,2,2,2,2,3,1 C29
