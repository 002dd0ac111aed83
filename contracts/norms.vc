@verbatim
// sum over the elements of a matrix of g(element)
pub open spec fn esum(d: Seq<E>, g: spec_fn(real) -> real, hi: int) -> real { sum(|k: int| g(v(d[k])), 0, hi) }
pub open spec fn rsq(x: real) -> real { x * x }
pub open spec fn diag_sum(m: &Matrix<E>, hi: int) -> real { sum(|k: int| v(m.at(k, k)), 0, hi) }
@endverbatim
@file matrix.rs
@fn Matrix::trace
@props C11
@requires self.wf(),
@ensures
  v(r) == diag_sum(self, imin(self.no_rows as int, self.c())),
@loop 0 for k
  invariant
    self.wf(), $it.snapshot@.end == imin(self.no_rows as int, self.c()), idx == $k * (self.c() + 1),
    v(sum) == diag_sum(self, $k),
@at L0.start
  proof {
    assert(idx == k * self.c() + k) by (nonlinear_arith) requires idx == k * (self.c() + 1);
    assert((k + 1) * (self.c() + 1) == k * (self.c() + 1) + self.c() + 1) by (nonlinear_arith);
    let ff = |k: int| v(self.at(k, k));
    assert(ff(k as int) == v(self.at(k as int, k as int)));
    assert(self.no_rows * self.c() <= isize::MAX);
    assert(k * self.c() + self.c() <= self.no_rows * self.c());
    assert(self.c() <= isize::MAX);
  }

@fn Matrix::vector_euclidean_norm
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  v(r) == rsqrt(esum(self.data@, |x: real| rsq(x), self.data@.len() as int)),
@loop 0 for i
  invariant
    v(s) == esum(self.data@, |x: real| rsq(x), i as int),

@fn Matrix::length
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  v(r) == rsqrt(esum(self.data@, |x: real| rsq(x), self.data@.len() as int)),

@fn Matrix::vector_2_norm
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  v(r) == rsqrt(esum(self.data@, |x: real| rsq(x), self.data@.len() as int)),

@fn Matrix::frobenius_norm
@props C11
@requires self.wf(),
@ensures
  v(r) == rsqrt(esum(self.data@, |x: real| rsq(x), self.data@.len() as int)),
@loop 0 for i
  invariant
    v(s) == esum(self.data@, |x: real| rsq(x), i as int),

@fn Matrix::vector_1_norm
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  v(r) == esum(self.data@, |x: real| rabs(x), self.data@.len() as int),
@loop 0 for i
  invariant
    v(s) == esum(self.data@, |x: real| rabs(x), i as int),

@fn Matrix::vector_p_norm
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  v(r) == rpow(esum(self.data@, |x: real| rpow(rabs(x), v(p)), self.data@.len() as int), rdiv(1real, v(p))),
@loop 0 for i
  invariant
    v(s) == esum(self.data@, |x: real| rpow(rabs(x), v(p)), i as int),

@fn Matrix::vector_inf_norm
@props C11
@pre self.c() == 1
@requires self.wf(),
@ensures
  forall|i: int| 0 <= i < self.data@.len() ==> rabs(#[trigger] v(self.data@[i])) <= v(r),
  exists|i: int| 0 <= i < self.data@.len() && rabs(#[trigger] v(self.data@[i])) == v(r),
@at L0.before
  proof { assert(rabs(v(self.data@[0])) == crate::v(current_max)); }
@loop 0 for i
  invariant
    self.wf(),
    forall|k: int| 0 <= k < i ==> rabs(#[trigger] crate::v(self.data@[k])) <= crate::v(current_max),
    exists|k: int| 0 <= k < i && rabs(#[trigger] crate::v(self.data@[k])) == crate::v(current_max),
@end
