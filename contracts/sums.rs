// ---------------------------------------------------------------- finite sums of reals
pub mod sm {
use super::*;
pub open spec fn sum(f: spec_fn(int) -> real, lo: int, hi: int) -> real
  decreases hi - lo
{ if hi <= lo { 0real } else { sum(f, lo, hi - 1) + f(hi - 1) } }
pub proof fn sum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) == g(k),
  ensures sum(f, lo, hi) == sum(g, lo, hi),
  decreases hi - lo,
{ if hi > lo { sum_ext(f, g, lo, hi - 1); assert(f(hi - 1) == g(hi - 1)); } }
pub proof fn sum_zero(f: spec_fn(int) -> real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) == 0real,
  ensures sum(f, lo, hi) == 0real,
  decreases hi - lo,
{ if hi > lo { sum_zero(f, lo, hi - 1); assert(f(hi - 1) == 0real); } }
pub proof fn sum_split(f: spec_fn(int) -> real, lo: int, mid: int, hi: int)
  requires lo <= mid <= hi,
  ensures sum(f, lo, hi) == sum(f, lo, mid) + sum(f, mid, hi),
  decreases hi - mid,
{ if hi > mid { sum_split(f, lo, mid, hi - 1); } }
// the first term by itself
pub proof fn sum_first(f: spec_fn(int) -> real, lo: int, hi: int)
  requires lo < hi,
  ensures sum(f, lo, hi) == f(lo) + sum(f, lo + 1, hi),
{ sum_split(f, lo, lo + 1, hi); assert(sum(f, lo, lo + 1) == sum(f, lo, lo) + f(lo)); }
// only one term differs from zero
pub proof fn sum_single(f: spec_fn(int) -> real, lo: int, hi: int, i: int)
  requires lo <= i < hi, forall|k: int| lo <= k < hi && k != i ==> #[trigger] f(k) == 0real,
  ensures sum(f, lo, hi) == f(i),
{
  sum_split(f, lo, i, hi); sum_first(f, i, hi); sum_zero(f, lo, i); sum_zero(f, i + 1, hi);
}
pub proof fn sum_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, h: spec_fn(int) -> real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] h(k) == f(k) + g(k),
  ensures sum(h, lo, hi) == sum(f, lo, hi) + sum(g, lo, hi),
  decreases hi - lo,
{ if hi > lo { sum_add(f, g, h, lo, hi - 1); assert(h(hi - 1) == f(hi - 1) + g(hi - 1)); } }
pub proof fn sum_scale(f: spec_fn(int) -> real, g: spec_fn(int) -> real, c: real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] g(k) == c * f(k),
  ensures sum(g, lo, hi) == c * sum(f, lo, hi),
  decreases hi - lo,
{
  if hi > lo {
    sum_scale(f, g, c, lo, hi - 1); assert(g(hi - 1) == c * f(hi - 1));
    let s = sum(f, lo, hi - 1); let t = f(hi - 1);
    assert(c * (s + t) == c * s + c * t) by (nonlinear_arith);
  } else { assert(c * 0real == 0real) by (nonlinear_arith); }
}
// the order of summation
pub open spec fn inner(f: spec_fn(int, int) -> real, lo: int, hi: int) -> spec_fn(int) -> real { |i: int| sum(|j: int| f(i, j), lo, hi) }
pub open spec fn outer(f: spec_fn(int, int) -> real, lo: int, hi: int) -> spec_fn(int) -> real { |j: int| sum(|i: int| f(i, j), lo, hi) }
pub proof fn sum_swap(f: spec_fn(int, int) -> real, a: int, b: int, c: int, d: int)
  ensures sum(inner(f, c, d), a, b) == sum(outer(f, a, b), c, d),
  decreases b - a,
{
  if b <= a {
    sum_zero(outer(f, a, b), c, d);
  } else {
    sum_swap(f, a, b - 1, c, d);
    let g = |j: int| f(b - 1, j);
    sum_add(outer(f, a, b - 1), g, outer(f, a, b), c, d);
  }
}
pub proof fn sum_nonneg(f: spec_fn(int) -> real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) >= 0real,
  ensures sum(f, lo, hi) >= 0real,
  decreases hi - lo,
{ if hi > lo { sum_nonneg(f, lo, hi - 1); assert(f(hi - 1) >= 0real); } }
// a sum of squares is zero only when every term is
pub proof fn sum_pos(f: spec_fn(int) -> real, lo: int, hi: int, i: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) >= 0real, lo <= i < hi,
  ensures sum(f, lo, hi) >= f(i),
  decreases hi - lo,
{ if i == hi - 1 { sum_nonneg(f, lo, hi - 1); } else { sum_pos(f, lo, hi - 1, i); assert(f(hi - 1) >= 0real); } }
}
pub use sm::*;
