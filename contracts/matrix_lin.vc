@verbatim
// x*a = b*... : what a two-sided inverse is
pub open spec fn is_inverse(a: &Matrix<E>, x: &Matrix<E>) -> bool {
  let n = a.c();
  &&& x.shaped(n, n)
  &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mp(fnof(a), fnof(x), n, i, j) == kd(i, j)
  &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mp(fnof(x), fnof(a), n, i, j) == kd(i, j)
}
// a matrix that maps no non-zero vector to zero maps no non-zero column to zero
pub proof fn indep_inj(a: Mt, m: int, n: int, z: Mt, j: int)
  requires !dependent(a, m, n), n >= 0, forall|i: int| 0 <= i < m ==> #[trigger] mp(a, z, n, i, j) == 0real,
  ensures forall|i: int| 0 <= i < n ==> #[trigger] z(i, j) == 0real,
{
  let x = Seq::new(n as nat, |i: int| z(i, j));
  assert(nullv(a, m, n, x)) by {
    assert forall|i: int| 0 <= i < m implies #[trigger] mp(a, col(x), n, i, 0) == 0real by {
      mp_ext(a, a, z, col(x), n, i, i, j, 0);
      assert(mp(a, z, n, i, j) == 0real);
    }
  }
  assert(!nonzero(x));
  assert forall|i: int| 0 <= i < n implies #[trigger] z(i, j) == 0real by { assert(x[i] == z(i, j)); }
}
// a right inverse of a non-singular matrix is a left inverse
pub proof fn right_left(a: Mt, x: Mt, n: int, i: int, j: int)
  requires
    !dependent(a, n, n), 0 <= i < n, 0 <= j < n,
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mp(a, x, n, i, j) == kd(i, j),
  ensures mp(x, a, n, i, j) == kd(i, j),
{
  // a*(x*a - 1) = (a*x)*a - a = 0
  let xa = mm(x, a, n);
  let z = |i: int, j: int| xa(i, j) - idm()(i, j);
  assert forall|r: int| 0 <= r < n implies #[trigger] mp(a, z, n, r, j) == 0real by {
    mp_sub(a, xa, idm(), z, n, r, j);
    mp_assoc(a, x, a, n, n, r, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] mm(a, x, n)(r, k) == idm()(r, k) by { assert(mp(a, x, n, r, k) == kd(r, k)); }
    mp_ext(mm(a, x, n), idm(), a, a, n, r, r, j, j);
    mp_id_l(a, n, r, j);
    mp_id_r(a, n, r, j);
  }
  indep_inj(a, n, n, z, j);
  assert(z(i, j) == 0real);
}
@endverbatim
@file matrix.rs
@fn Matrix::det
@props C15
@pre self.no_rows == self.c()
@requires self.wf(),
@ensures
  (v(r) == 0real) == singular(self),
  forall|d: spec_fn(Mt) -> real| #[trigger] is_det(d, self.c()) ==> v(r) == d(fnof(self)),

@fn Matrix::solve
@props C14
@pre self.no_rows == self.c() && b.no_rows == self.no_rows
@requires self.wf(), b.wf(),
@ensures
  r is None <==> singular(self),
  r is Some ==> solves(self, &r->0, b),

@fn Matrix::inverse
@props C16
@pre self.no_rows == self.c() && self.no_rows * self.no_rows <= usize::MAX
@requires self.wf(),
@ensures
  r is None <==> singular(self),
  r is Some ==> is_inverse(self, &r->0),
@at end
  proof {
    let n = self.c();
    assert forall|x: Matrix<E>, b: Matrix<E>| #![trigger solves(self, &x, &b)] !singular(self) && b.shaped(n, n) && solves(self, &x, &b) &&
        (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] b.at(i, j) == if i == j { e_one() } else { e_zero() }) implies is_inverse(self, &x) by {
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mp(fnof(self), fnof(&x), n, i, j) == kd(i, j) by {
        assert(b.at(i, j) == if i == j { e_one() } else { e_zero() });
      }
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mp(fnof(&x), fnof(self), n, i, j) == kd(i, j) by { right_left(fnof(self), fnof(&x), n, i, j); }
    }
  }

@fn Matrix::is_singular
@props C14
@pre self.no_rows == self.c()
@requires self.wf(),
@ensures
  r == singular(self),

@fn Matrix::is_non_singular
@props C14
@pre self.no_rows == self.c()
@requires self.wf(),
@ensures
  r == !singular(self),
