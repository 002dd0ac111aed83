@file matrix.rs
@struct Matrix

@fn Matrix::new
@props C01
@pre no_rows * no_cols == data@.len() && no_rows > 0 && no_cols > 0
@requires data@.len() <= isize::MAX,
@ensures
  r.shaped(no_rows as int, no_cols as int),
  r.data == data,

@fn Matrix::vector
@props C01,C03
@pre data@.len() > 0
@requires data@.len() <= isize::MAX,
@ensures
  r.shaped(data@.len() as int, 1),
  r.data == data,

@fn Matrix::row_vector
@props C01,C03
@pre data@.len() > 0
@requires data@.len() <= isize::MAX,
@ensures
  r.shaped(1, data@.len() as int),
  r.data == data,

@fn Matrix::rows
@props C01
@ensures
  r == self.no_rows,

@fn Matrix::cols
@props C01
@requires self.wf(),
@ensures
  r == self.c(),

@fn Matrix::get_data
@props C02
@ensures
  *r == self.data,

@fn Matrix::get_mut_data
@props C02
@ensures
  *r == old(self).data,
  final(self).data == *final(r),
  final(self).no_rows == old(self).no_rows,

@fn Matrix::get_ref
@props C02
@pre row < self.no_rows && col < self.c()
@requires self.wf(),
@ensures
  *r == self.at(row as int, col as int),

@fn Matrix::get_mref
@props C02
@pre row < old(self).no_rows && col < old(self).c()
@requires old(self).wf(),
@ensures
  *r == old(self).at(row as int, col as int),
  final(self).data@ == old(self).data@.update(row * old(self).c() + col, *final(r)),
  final(self).no_rows == old(self).no_rows,

@fn Matrix::get
@props C02
@pre row < self.no_rows && col < self.c()
@requires self.wf(),
@ensures
  r == self.at(row as int, col as int),

@fn Matrix::set
@props C02
@pre row < old(self).no_rows && col < old(self).c()
@requires old(self).wf(),
@ensures
  final(self).data@ == old(self).data@.update(row * old(self).c() + col, val),
  final(self).no_rows == old(self).no_rows,
  final(self).shaped(old(self).no_rows as int, old(self).c()),

@fn Index<(usize,usize)>forMatrix<T>::index
@props C02
@inherent
@name index_op
@pre p1__.0 < self.no_rows && p1__.1 < self.c()
@requires self.wf(),
@ensures
  *r == self.at(p1__.0 as int, p1__.1 as int),

@fn Matrix::map
@props C08,C01
@requires
  self.wf(),
  forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] call_requires(f, (&self.data@[i],)),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|i: int| 0 <= i < self.data@.len() ==> call_ensures(f, (&self.data@[i],), #[trigger] r.data@[i]),
@loop 0 for i
  invariant
    d@.len() == elems, elems == self.data@.len(), self.wf(),
    forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] call_requires(f, (&self.data@[i],)),
    forall|j: int| 0 <= j < i ==> call_ensures(f, (&self.data@[j],), #[trigger] d@[j]),

@fn Matrix::mmap
@props C08,C01
@requires
  old(self).wf(),
  forall|i: int| 0 <= i < old(self).data@.len() ==> #[trigger] call_requires(f, (&old(self).data@[i],)),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|i: int| 0 <= i < old(self).data@.len() ==> call_ensures(f, (&old(self).data@[i],), #[trigger] final(self).data@[i]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    forall|i: int| 0 <= i < old(self).data@.len() ==> #[trigger] call_requires(f, (&old(self).data@[i],)),
    forall|j: int| 0 <= j < i ==> call_ensures(f, (&old(self).data@[j],), #[trigger] self.data@[j]),
    forall|j: int| i <= j < self.data@.len() ==> self.data@[j] == old(self).data@[j],

@fn Matrix::is_square
@props C12
@requires self.wf(),
@ensures
  r == (self.no_rows == self.c()),

@fn Matrix::is_not_square
@props C12
@requires self.wf(),
@ensures
  r == (self.no_rows != self.c()),

@fn Matrix::id
@props C03,C01
@pre m > 0 && n > 0 && m * n <= usize::MAX
@ensures
  r.shaped(m as int, n as int),
  forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] r.at(i, j) == if i == j { e_one() } else { e_zero() },
@loop 0 for i
  invariant d@.len() == elems, forall|k: int| 0 <= k < i ==> d@[k] == e_zero(),
@loop 1 for i
  invariant d@.len() == elems, elems == m * n, m > 0, n > 0,
    forall|a: int, b: int| 0 <= a < m && 0 <= b < n ==> #[trigger] d@[a * n + b] == if a == b && a < i { e_one() } else { e_zero() },

@fn Matrix::zero
@props C03,C01
@pre no_rows > 0 && no_cols > 0 && no_rows * no_cols <= usize::MAX
@ensures
  r.shaped(no_rows as int, no_cols as int),
  forall|k: int| 0 <= k < no_rows * no_cols ==> r.data@[k] == e_zero(),
@loop 0 for i
  invariant d@.len() == elems, forall|k: int| 0 <= k < i ==> d@[k] == e_zero(),

@fn Matrix::diag
@props C03,C01
@pre data@.len() > 0
@requires data@.len() * data@.len() <= usize::MAX,
@ensures
  r.shaped(data@.len() as int, data@.len() as int),
  forall|i: int, j: int| 0 <= i < data@.len() && 0 <= j < data@.len() ==> #[trigger] r.at(i, j) == if i == j { data@[i] } else { e_zero() },
@loop 0 for i
  invariant d@.len() == elems, forall|k: int| 0 <= k < i ==> d@[k] == e_zero(),
@loop 1 for i
  invariant d@.len() == elems, elems == size * size, size == data@.len(),
    forall|a: int, b: int| 0 <= a < size && 0 <= b < size ==> #[trigger] d@[a * size + b] == if a == b && a < i { data@[a] } else { e_zero() },

@fn Matrix::block_diag
@props C03,C01
@pre m > 0 && n > 0 && data@.len() == imin(m as int, n as int)
@requires m * n <= usize::MAX,
@ensures
  r.shaped(m as int, n as int),
  forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] r.at(i, j) == if i == j { data@[i] } else { e_zero() },
@loop 0 for i
  invariant d@.len() == elems, forall|k: int| 0 <= k < i ==> d@[k] == e_zero(),
@loop 1 for i
  invariant d@.len() == elems, elems == m * n, min_dim == data@.len(), min_dim == imin(m as int, n as int),
    forall|a: int, b: int| 0 <= a < m && 0 <= b < n ==> #[trigger] d@[a * n + b] == if a == b && a < i { data@[a] } else { e_zero() },

@fn Matrix::zero_vector
@props C03,C01
@pre no_rows > 0
@ensures
  r.shaped(no_rows as int, 1),
  forall|k: int| 0 <= k < no_rows ==> r.data@[k] == e_zero(),
@loop 0 for i
  invariant d@.len() == no_rows, forall|k: int| 0 <= k < i ==> d@[k] == e_zero(),

@fn Matrix::one_vector
@props C03,C01
@pre no_rows > 0
@ensures
  r.shaped(no_rows as int, 1),
  forall|k: int| 0 <= k < no_rows ==> r.data@[k] == e_one(),
@loop 0 for i
  invariant d@.len() == no_rows, forall|k: int| 0 <= k < i ==> d@[k] == e_one(),

@fn Matrix::random
@props C01
@pre no_rows > 0 && no_cols > 0 && no_rows * no_cols <= usize::MAX
@ensures
  r.shaped(no_rows as int, no_cols as int),
@loop 0 for i
  invariant d@.len() == elems,

@fn Matrix::mneg
@props C09,C01
@requires old(self).wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_neg(old(self).data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_neg(old(self).data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@fn Matrix::scale
@props C09,C01
@requires self.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_mul(factor, self.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_mul(factor, self.data@[k]),

@fn Matrix::mscale
@props C09,C01
@requires old(self).wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_mul(factor, old(self).data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_mul(factor, old(self).data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@fn Matrix::madd
@props C09,C01
@pre same_shape(old(self), m)
@requires old(self).wf(), m.wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_add(old(self).data@[k], m.data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    m.data@.len() == self.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_add(old(self).data@[k], m.data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@fn Matrix::msub
@props C09,C01
@pre same_shape(old(self), m)
@requires old(self).wf(), m.wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_sub(old(self).data@[k], m.data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    m.data@.len() == self.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_sub(old(self).data@[k], m.data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@fn Matrix::elem_mul
@props C09,C01
@pre same_shape(self, m)
@requires self.wf(), m.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_mul(self.data@[k], m.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    m.data@.len() == elems,
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_mul(self.data@[k], m.data@[k]),

@fn Matrix::melem_mul
@props C09,C01
@pre same_shape(old(self), m)
@requires old(self).wf(), m.wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_mul(old(self).data@[k], m.data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    m.data@.len() == self.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_mul(old(self).data@[k], m.data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@fn Matrix::elem_div
@props C09,C01
@pre same_shape(self, m)
@requires self.wf(), m.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_div(self.data@[k], m.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    m.data@.len() == elems,
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_div(self.data@[k], m.data@[k]),

@fn Matrix::melem_div
@props C09,C01
@pre same_shape(old(self), m)
@requires old(self).wf(), m.wf(),
@ensures
  final(self).shaped(old(self).no_rows as int, old(self).c()),
  forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == e_div(old(self).data@[k], m.data@[k]),
@loop 0 for i
  invariant
    self.data@.len() == old(self).data@.len(), self.no_rows == old(self).no_rows,
    m.data@.len() == self.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == e_div(old(self).data@[k], m.data@[k]),
    forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],

@verbatim
// preconditions of the operator traits (Verus attaches them to the trait, not to the impl)
impl NegSpecImpl for Matrix<E> {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { self.wf() }
  open spec fn neg_spec(self) -> Matrix<E> { arbitrary() }
}
impl<'a> NegSpecImpl for &'a Matrix<E> {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { self.wf() }
  open spec fn neg_spec(self) -> Matrix<E> { arbitrary() }
}
impl AddSpecImpl<Matrix<E>> for Matrix<E> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(&self, &o)) }
  open spec fn add_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'b> AddSpecImpl<&'b Matrix<E>> for Matrix<E> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(&self, o)) }
  open spec fn add_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a> AddSpecImpl<Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(self, &o)) }
  open spec fn add_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a, 'b> AddSpecImpl<&'b Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(self, o)) }
  open spec fn add_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl SubSpecImpl<Matrix<E>> for Matrix<E> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(&self, &o)) }
  open spec fn sub_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'b> SubSpecImpl<&'b Matrix<E>> for Matrix<E> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(&self, o)) }
  open spec fn sub_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a> SubSpecImpl<Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(self, &o)) }
  open spec fn sub_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a, 'b> SubSpecImpl<&'b Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (acc() ==> same_shape(self, o)) }
  open spec fn sub_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl MulSpecImpl<Matrix<E>> for Matrix<E> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (&self).no_rows * (&o).c() <= isize::MAX && (acc() ==> (&self).c() == (&o).no_rows) }
  open spec fn mul_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'b> MulSpecImpl<&'b Matrix<E>> for Matrix<E> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (&self).no_rows * (o).c() <= isize::MAX && (acc() ==> (&self).c() == (o).no_rows) }
  open spec fn mul_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a> MulSpecImpl<Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, o: Matrix<E>) -> bool { self.wf() && o.wf() && (self).no_rows * (&o).c() <= isize::MAX && (acc() ==> (self).c() == (&o).no_rows) }
  open spec fn mul_spec(self, o: Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'a, 'b> MulSpecImpl<&'b Matrix<E>> for &'a Matrix<E> {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (self).no_rows * (o).c() <= isize::MAX && (acc() ==> (self).c() == (o).no_rows) }
  open spec fn mul_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
impl<'b> BitOrSpecImpl<&'b Matrix<E>> for Matrix<E> {
  open spec fn obeys_bitor_spec() -> bool { false }
  open spec fn bitor_req(self, o: &'b Matrix<E>) -> bool { self.wf() && o.wf() && (&self).data@.len() + o.data@.len() <= isize::MAX && (acc() ==> (&self).no_rows == (o).no_rows) }
  open spec fn bitor_spec(self, o: &'b Matrix<E>) -> Matrix<E> { arbitrary() }
}
@endverbatim

@fn Neg for &Matrix<T>::neg
@props C09,C01
@requires self.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_neg(self.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_neg(self.data@[k]),

@fn Neg for Matrix<T>::neg
@props C09,C01
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_neg(self.data@[k]),

@fn Add<&Matrix<T>> for &Matrix<T>::add
@props C09,C01
@pre same_shape(self, m)
@requires self.wf(), m.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_add(self.data@[k], m.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    m.data@.len() == elems,
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_add(self.data@[k], m.data@[k]),

@fn Add<Matrix<T>> for &Matrix<T>::add
@props C09,C01
@pre same_shape(self, &m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_add(self.data@[k], m.data@[k]),

@fn Add<&Matrix<T>> for Matrix<T>::add
@props C09,C01
@pre same_shape(&self, m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_add(self.data@[k], m.data@[k]),

@fn Add<Matrix<T>> for Matrix<T>::add
@attr #[verifier::exec_allows_no_decreases_clause]
@props C09,C01
@pre same_shape(&self, &m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_add(self.data@[k], m.data@[k]),

@fn Sub<&Matrix<T>> for &Matrix<T>::sub
@props C09,C01
@pre same_shape(self, m)
@requires self.wf(), m.wf(),
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_sub(self.data@[k], m.data@[k]),
@loop 0 for i
  invariant
    elems == self.data@.len(), d@.len() == elems,
    m.data@.len() == elems,
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == e_sub(self.data@[k], m.data@[k]),

@fn Sub<Matrix<T>> for &Matrix<T>::sub
@props C09,C01
@pre same_shape(self, &m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_sub(self.data@[k], m.data@[k]),

@fn Sub<&Matrix<T>> for Matrix<T>::sub
@props C09,C01
@pre same_shape(&self, m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_sub(self.data@[k], m.data@[k]),

@fn Sub<Matrix<T>> for Matrix<T>::sub
@attr #[verifier::exec_allows_no_decreases_clause]
@props C09,C01
@pre same_shape(&self, &m)
@ensures
  r.shaped(self.no_rows as int, self.c()),
  forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] r.data@[k] == e_sub(self.data@[k], m.data@[k]),

@verbatim
// sum over t in 0..k, in increasing order starting from zero, of a(i, t) * b(t, j)
pub open spec fn dot(a: &Matrix<E>, b: &Matrix<E>, i: int, j: int, k: int) -> E
  decreases k
{
  if k <= 0 { e_zero() } else { e_add(dot(a, b, i, j, k - 1), e_mul(a.at(i, k - 1), b.at(k - 1, j))) }
}
pub open spec fn is_product(r: &Matrix<E>, a: &Matrix<E>, b: &Matrix<E>) -> bool {
  r.shaped(a.no_rows as int, b.c())
  && forall|i: int, j: int| 0 <= i < a.no_rows && 0 <= j < b.c() ==> #[trigger] r.at(i, j) == dot(a, b, i, j, a.c())
}
@endverbatim

@fn Matrix::mmul
@props C10,C01
@pre old(self).c() == m.no_rows
@requires
  old(self).wf(), m.wf(), old(self).no_rows * m.c() <= isize::MAX,
@ensures
  is_product(final(self), old(self), m),
@loop 0 for row
  invariant
    *self == *old(self),
    old(self).wf(), m.wf(), old(self).c() == m.no_rows, d@.len() == elems, elems == old(self).no_rows * m.c(),
    forall|i: int, j: int| 0 <= i < row && 0 <= j < m.c() ==> #[trigger] d@[i * m.c() + j] == dot(old(self), m, i, j, old(self).c()),
@loop 0.0 for col
  invariant
    *self == *old(self),
    old(self).wf(), m.wf(), old(self).c() == m.no_rows, d@.len() == elems, elems == old(self).no_rows * m.c(), row < old(self).no_rows,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < m.c() ==> #[trigger] d@[i * m.c() + j] == dot(old(self), m, i, j, old(self).c()),
    forall|j: int| 0 <= j < col ==> #[trigger] d@[row * m.c() + j] == dot(old(self), m, row as int, j, old(self).c()),
@loop 0.0.0 for idx
  invariant
    *self == *old(self),
    old(self).wf(), m.wf(), old(self).c() == m.no_rows, row < old(self).no_rows, col < m.c(),
    res == dot(old(self), m, row as int, col as int, idx as int),

@fn Mul<&Matrix<T>> for &Matrix<T>::mul
@props C10,C01
@pre self.c() == m.no_rows
@ensures
  is_product(&r, self, m),
@loop 0 for row
  invariant
    self.wf(), m.wf(), self.c() == m.no_rows, d@.len() == elems, elems == self.no_rows * m.c(),
    forall|i: int, j: int| 0 <= i < row && 0 <= j < m.c() ==> #[trigger] d@[i * m.c() + j] == dot(self, m, i, j, self.c()),
@loop 0.0 for col
  invariant
    self.wf(), m.wf(), self.c() == m.no_rows, d@.len() == elems, elems == self.no_rows * m.c(), row < self.no_rows,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < m.c() ==> #[trigger] d@[i * m.c() + j] == dot(self, m, i, j, self.c()),
    forall|j: int| 0 <= j < col ==> #[trigger] d@[row * m.c() + j] == dot(self, m, row as int, j, self.c()),
@loop 0.0.0 for idx
  invariant
    self.wf(), m.wf(), self.c() == m.no_rows, row < self.no_rows, col < m.c(),
    res == dot(self, m, row as int, col as int, idx as int),

@fn Mul<Matrix<T>> for &Matrix<T>::mul
@props C10,C01
@pre self.c() == m.no_rows
@ensures
  is_product(&r, self, &m),

@fn Mul<&Matrix<T>> for Matrix<T>::mul
@props C10,C01
@pre self.c() == m.no_rows
@ensures
  is_product(&r, &self, m),

@fn Mul<Matrix<T>> for Matrix<T>::mul
@attr #[verifier::exec_allows_no_decreases_clause]
@props C10,C01
@pre self.c() == m.no_rows
@ensures
  is_product(&r, &self, &m),


@fn Matrix::cr
@props C05,C01
@pre self.no_rows == m.no_rows
@requires self.wf(), m.wf(), self.data@.len() + m.data@.len() <= isize::MAX,
@ensures
  r.shaped(self.no_rows as int, self.c() + m.c()),
  forall|i: int, j: int| 0 <= i < self.no_rows && 0 <= j < self.c() + m.c() ==> #[trigger] r.at(i, j) == if j < self.c() { self.at(i, j) } else { m.at(i, j - self.c()) },
@loop 0 for row
  invariant
    self.wf(), m.wf(), self.no_rows == m.no_rows, d@.len() == elems, elems == self.data@.len() + m.data@.len(),
    elems == self.no_rows * (self.c() + m.c()),
    src_idx1 == row * self.c(), src_idx2 == row * m.c(), dest_idx == row * (self.c() + m.c()),
    forall|i: int, j: int| 0 <= i < row && 0 <= j < self.c() + m.c() ==> #[trigger] d@[i * (self.c() + m.c()) + j] == if j < self.c() { self.at(i, j) } else { m.at(i, j - self.c()) },
@loop 0.0 for a
  invariant
    self.wf(), m.wf(), self.no_rows == m.no_rows, row < self.no_rows, d@.len() == elems, elems == self.data@.len() + m.data@.len(),
    elems == self.no_rows * (self.c() + m.c()),
    src_idx1 == row * self.c() + a, dest_idx == row * (self.c() + m.c()) + a,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < self.c() + m.c() ==> #[trigger] d@[i * (self.c() + m.c()) + j] == if j < self.c() { self.at(i, j) } else { m.at(i, j - self.c()) },
    forall|j: int| 0 <= j < a ==> #[trigger] d@[row * (self.c() + m.c()) + j] == self.at(row as int, j),
@loop 0.1 for b
  invariant
    self.wf(), m.wf(), self.no_rows == m.no_rows, row < self.no_rows, d@.len() == elems, elems == self.data@.len() + m.data@.len(),
    elems == self.no_rows * (self.c() + m.c()),
    src_idx2 == row * m.c() + b, dest_idx == row * (self.c() + m.c()) + self.c() + b,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < self.c() + m.c() ==> #[trigger] d@[i * (self.c() + m.c()) + j] == if j < self.c() { self.at(i, j) } else { m.at(i, j - self.c()) },
    forall|j: int| 0 <= j < self.c() + b ==> #[trigger] d@[row * (self.c() + m.c()) + j] == if j < self.c() { self.at(row as int, j) } else { m.at(row as int, j - self.c()) },
@at L0.before
  proof {
    assert(self.no_rows * (self.c() + m.c()) == self.no_rows * self.c() + self.no_rows * m.c()) by (nonlinear_arith);
  }
@at L0.end
  proof {
    assert((row + 1) * self.c() == row * self.c() + self.c()) by (nonlinear_arith);
    assert((row + 1) * m.c() == row * m.c() + m.c()) by (nonlinear_arith);
    assert((row + 1) * (self.c() + m.c()) == row * (self.c() + m.c()) + (self.c() + m.c())) by (nonlinear_arith);
  }

@fn BitOr<&Matrix<T>> for Matrix<T>::bitor
@props C05,C01
@pre self.no_rows == rhs.no_rows
@ensures
  r.shaped(self.no_rows as int, self.c() + rhs.c()),
  forall|i: int, j: int| 0 <= i < self.no_rows && 0 <= j < self.c() + rhs.c() ==> #[trigger] r.at(i, j) == if j < self.c() { self.at(i, j) } else { rhs.at(i, j - self.c()) },

@fn Matrix::cb
@props C05,C01
@pre self.c() == m.c()
@requires self.wf(), m.wf(), self.data@.len() + m.data@.len() <= isize::MAX,
@ensures
  r.shaped(self.no_rows + m.no_rows, self.c()),
  forall|i: int, j: int| 0 <= i < self.no_rows + m.no_rows && 0 <= j < self.c() ==> #[trigger] r.at(i, j) == if i < self.no_rows { self.at(i, j) } else { m.at(i - self.no_rows, j) },
@loop 0 for i
  invariant
    d@.len() == elems, elems == self.data@.len() + m.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == self.data@[k],
@loop 1 for i
  invariant
    d@.len() == elems, elems == self.data@.len() + m.data@.len(), offset == self.data@.len(),
    forall|k: int| 0 <= k < offset ==> #[trigger] d@[k] == self.data@[k],
    forall|k: int| offset <= k < offset + i ==> #[trigger] d@[k] == m.data@[k - offset],
@at end
  proof {
    assert((self.no_rows + m.no_rows) * self.c() == self.no_rows * self.c() + m.no_rows * self.c()) by (nonlinear_arith);
    assert forall|i: int| self.no_rows <= i implies #[trigger] (i * self.c()) == self.no_rows * self.c() + (i - self.no_rows) * self.c() by {
      assert(i * self.c() == self.no_rows * self.c() + (i - self.no_rows) * self.c()) by (nonlinear_arith);
    }
  }

@fn Matrix::t
@props C04,C01
@requires self.wf(),
@ensures
  r.shaped(self.c(), self.no_rows as int),
  forall|i: int, j: int| 0 <= i < self.c() && 0 <= j < self.no_rows ==> #[trigger] r.at(i, j) == self.at(j, i),
@at L0.before
  let ghost mut gi: int = 0;
  let ghost mut gj: int = 0;
@loop 0 for i
  invariant
    self.wf(), elems == self.data@.len(), d@.len() == elems,
    0 <= gi <= self.c(), 0 <= gj < self.no_rows, i == gi * self.no_rows + gj, gi == self.c() ==> gj == 0,
    gi < self.c() ==> src_idx == gj * self.c() + gi, src_idx <= elems,
    forall|a: int, b: int| 0 <= a < self.c() && 0 <= b < self.no_rows && a * self.no_rows + b < i ==> #[trigger] d@[a * self.no_rows + b] == self.data@[b * self.c() + a],
@at L0.start
  proof {
    assert(gi < self.c()) by { if gi == self.c() { assert(gi * self.no_rows == self.no_rows * self.c()) by (nonlinear_arith) requires gi == self.c(); } }
  }
@at L0.end
  proof {
    assert((gj + 1) * self.c() == gj * self.c() + self.c()) by (nonlinear_arith);
    assert((gi + 1) * self.no_rows == gi * self.no_rows + self.no_rows) by (nonlinear_arith);
    if gj + 1 == self.no_rows { gj = 0; gi = gi + 1; } else { gj = gj + 1; }
  }
@at end
  proof { assert(self.no_rows * self.c() == self.c() * self.no_rows) by (nonlinear_arith); }

@fn Matrix::minor
@props C06,C01
@pre row < self.no_rows && col < self.c() && self.no_rows > 1 && self.c() > 1
@requires self.wf(),
@ensures
  r.shaped(self.no_rows - 1, self.c() - 1),
  forall|i: int, j: int| 0 <= i < self.no_rows - 1 && 0 <= j < self.c() - 1 ==> #[trigger] r.at(i, j) == self.at(if i < row { i } else { i + 1 }, if j < col { j } else { j + 1 }),
@at start
  proof {
    if self.no_rows > 1 && self.c() > 1 {
      assert((self.c() - 1) * (self.no_rows - 1) <= self.no_rows * self.c()) by (nonlinear_arith) requires self.no_rows > 1, self.c() > 1;
    }
  }
@at L0.before
  let ghost mut gr: int = 0;
  proof { assert((self.c() - 1) * (self.no_rows - 1) == (self.no_rows - 1) * (self.c() - 1)) by (nonlinear_arith); }
@loop 0 for current_row
  invariant
    self.wf(), row < self.no_rows, col < self.c(), self.c() > 1, d@.len() == elems, elems == (self.no_rows - 1) * (self.c() - 1),
    source_row_idx == current_row * self.c(),
    gr == if current_row <= row { current_row as int } else { current_row - 1 },
    dest_idx == gr * (self.c() - 1),
    forall|i: int, j: int| 0 <= i < gr && 0 <= j < self.c() - 1 ==> #[trigger] d@[i * (self.c() - 1) + j] == self.at(if i < row { i } else { i + 1 }, if j < col { j } else { j + 1 }),
@loop 0.0 for current_col
  invariant
    self.wf(), row < self.no_rows, col < self.c(), self.c() > 1, d@.len() == elems, elems == (self.no_rows - 1) * (self.c() - 1),
    current_row < self.no_rows, current_row != row,
    source_row_idx == current_row * self.c(),
    gr == if current_row <= row { current_row as int } else { current_row - 1 },
    dest_idx == gr * (self.c() - 1) + if current_col <= col { current_col as int } else { current_col - 1 },
    forall|i: int, j: int| 0 <= i < gr && 0 <= j < self.c() - 1 ==> #[trigger] d@[i * (self.c() - 1) + j] == self.at(if i < row { i } else { i + 1 }, if j < col { j } else { j + 1 }),
    forall|j: int| 0 <= j < (if current_col <= col { current_col as int } else { current_col - 1 }) ==> #[trigger] d@[gr * (self.c() - 1) + j] == self.at(current_row as int, if j < col { j } else { j + 1 }),
@at L0.end
  proof {
    assert((current_row + 1) * self.c() == current_row * self.c() + self.c()) by (nonlinear_arith);
    assert((gr + 1) * (self.c() - 1) == gr * (self.c() - 1) + (self.c() - 1)) by (nonlinear_arith);
    if current_row != row { gr = gr + 1; }
  }

@fn Matrix::sub_matrix
@props C06,C01
@pre start_row < end_row && start_col < end_col && end_row <= self.no_rows && end_col <= self.c()
@requires self.wf(),
@ensures
  r.shaped(end_row - start_row, end_col - start_col),
  forall|i: int, j: int| 0 <= i < end_row - start_row && 0 <= j < end_col - start_col ==> #[trigger] r.at(i, j) == self.at(start_row + i, start_col + j),
@at let:cols.after
  proof {
    assert(rows * cols <= self.no_rows * self.c()) by (nonlinear_arith) requires rows <= self.no_rows, cols <= self.c(), 0 <= cols, 0 <= self.no_rows;
  }
@loop 0 for row
  invariant
    self.wf(), end_row <= self.no_rows, end_col <= self.c(), rows == end_row - start_row, cols == end_col - start_col,
    start_row < end_row, start_col < end_col,
    d@.len() == elems, elems == rows * cols, src_idx == (start_row + row) * self.c() + start_col, dest_idx == row * cols,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < cols ==> #[trigger] d@[i * cols + j] == self.at(start_row + i, start_col + j),
@loop 0.0 for col_offset
  invariant
    self.wf(), end_row <= self.no_rows, end_col <= self.c(), rows == end_row - start_row, cols == end_col - start_col,
    start_row < end_row, start_col < end_col, row < rows,
    d@.len() == elems, elems == rows * cols, src_idx == (start_row + row) * self.c() + start_col, dest_idx == row * cols,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < cols ==> #[trigger] d@[i * cols + j] == self.at(start_row + i, start_col + j),
    forall|j: int| 0 <= j < col_offset ==> #[trigger] d@[row * cols + j] == self.at(start_row + row, start_col + j),
@at L0.end
  proof {
    assert((start_row + row + 1) * self.c() == (start_row + row) * self.c() + self.c()) by (nonlinear_arith);
    assert((row + 1) * cols == row * cols + cols) by (nonlinear_arith);
  }

@fn Matrix::get_column
@props C06,C01
@pre column < self.c()
@requires self.wf(),
@ensures
  r.shaped(self.no_rows as int, 1),
  forall|i: int| 0 <= i < self.no_rows ==> #[trigger] r.data@[i] == self.at(i, column as int),
@loop 0 for i
  invariant
    self.wf(), column < self.c(), d@.len() == self.no_rows, src_idx == i * self.c() + column,
    forall|k: int| 0 <= k < i ==> #[trigger] d@[k] == self.at(k, column as int),
@at L0.end
  proof { assert((i + 1) * self.c() == i * self.c() + self.c()) by (nonlinear_arith); }

@fn Matrix::permute_rows
@props C07,C01
@pre rows@.len() > 0 && forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] < self.no_rows
@requires
  self.wf(), rows@.len() * self.c() <= isize::MAX,
  forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] * self.c() <= usize::MAX,
@ensures
  r.shaped(rows@.len() as int, self.c()),
  forall|i: int, j: int| 0 <= i < rows@.len() && 0 <= j < self.c() ==> #[trigger] r.at(i, j) == self.at(rows@[i] as int, j),
@loop 0 for row
  invariant
    self.wf(), no_rows == rows@.len(), no_cols == self.c(), d@.len() == elems, elems == no_rows * no_cols, dest_idx == row * no_cols,
    forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] * self.c() <= usize::MAX,
    acc() ==> forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] < self.no_rows,
    forall|k: int| 0 <= k < row ==> #[trigger] rows@[k] < self.no_rows,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < no_cols ==> #[trigger] d@[i * no_cols + j] == self.at(rows@[i] as int, j),
@loop 0.0 for col
  invariant
    self.wf(), no_rows == rows@.len(), no_cols == self.c(), d@.len() == elems, elems == no_rows * no_cols, dest_idx == row * no_cols + col,
    row < no_rows, rows@[row as int] < self.no_rows, row_idx == rows@[row as int] * no_cols,
    forall|i: int, j: int| 0 <= i < row && 0 <= j < no_cols ==> #[trigger] d@[i * no_cols + j] == self.at(rows@[i] as int, j),
    forall|j: int| 0 <= j < col ==> #[trigger] d@[row * no_cols + j] == self.at(rows@[row as int] as int, j),
@at L0.end
  proof { assert((row + 1) * no_cols == row * no_cols + no_cols) by (nonlinear_arith); }

@fn Matrix::permute_columns
@props C07,C01
@pre columns@.len() > 0 && forall|k: int| 0 <= k < columns@.len() ==> #[trigger] columns@[k] < self.c()
@requires
  self.wf(), columns@.len() * self.no_rows <= isize::MAX,
@ensures
  r.shaped(self.no_rows as int, columns@.len() as int),
  forall|i: int, j: int| 0 <= i < self.no_rows && 0 <= j < columns@.len() ==> #[trigger] r.at(i, j) == self.at(i, columns@[j] as int),
@at let:no_cols.after
  proof { assert(no_rows * no_cols == no_cols * no_rows) by (nonlinear_arith); }
@loop 0 for row
  invariant
    self.wf(), no_rows == self.no_rows, no_cols == columns@.len(), d@.len() == elems, elems == no_rows * no_cols,
    dest_idx == row * no_cols, row_idx == row * self.c(),
    acc() ==> forall|k: int| 0 <= k < columns@.len() ==> #[trigger] columns@[k] < self.c(),
    row > 0 ==> forall|k: int| 0 <= k < columns@.len() ==> #[trigger] columns@[k] < self.c(),
    forall|i: int, j: int| 0 <= i < row && 0 <= j < no_cols ==> #[trigger] d@[i * no_cols + j] == self.at(i, columns@[j] as int),
@loop 0.0 for col
  invariant
    self.wf(), no_rows == self.no_rows, no_cols == columns@.len(), d@.len() == elems, elems == no_rows * no_cols,
    row < no_rows, dest_idx == row * no_cols + col, row_idx == row * self.c(),
    acc() ==> forall|k: int| 0 <= k < columns@.len() ==> #[trigger] columns@[k] < self.c(),
    forall|k: int| 0 <= k < col ==> #[trigger] columns@[k] < self.c(),
    forall|i: int, j: int| 0 <= i < row && 0 <= j < no_cols ==> #[trigger] d@[i * no_cols + j] == self.at(i, columns@[j] as int),
    forall|j: int| 0 <= j < col ==> #[trigger] d@[row * no_cols + j] == self.at(row as int, columns@[j] as int),
@at L0.end
  proof {
    assert((row + 1) * no_cols == row * no_cols + no_cols) by (nonlinear_arith);
    assert((row + 1) * self.c() == row * self.c() + self.c()) by (nonlinear_arith);
  }

@verbatim
// tr[0], tr[1], ..: the values of folding column c with f from init, first row first
pub open spec fn fold_trace<FN: Fn(&F, &E) -> F>(f: &FN, m: &Matrix<E>, c: int, init: F, k: int, v: F, tr: Seq<F>) -> bool {
  tr.len() == k + 1 && tr[0] == init && tr[k] == v && forall|t: int| 0 <= t < k ==> call_ensures(f, (&#[trigger] tr[t], &m.at(t, c)), tr[t + 1])
}
// v is reached from init by folding the first k elements of column c with f
pub open spec fn folds<FN: Fn(&F, &E) -> F>(f: &FN, m: &Matrix<E>, c: int, init: F, k: int, v: F) -> bool {
  exists|tr: Seq<F>| #[trigger] fold_trace(f, m, c, init, k, v, tr)
}
pub proof fn folds_init<FN: Fn(&F, &E) -> F>(f: &FN, m: &Matrix<E>, c: int, init: F)
  ensures folds(f, m, c, init, 0, init)
{
  assert(fold_trace(f, m, c, init, 0, init, seq![init]));
}
pub proof fn folds_step<FN: Fn(&F, &E) -> F>(f: &FN, m: &Matrix<E>, c: int, init: F, k: int, u: F, v: F)
  requires k >= 0, folds(f, m, c, init, k, u), call_ensures(f, (&u, &m.at(k, c)), v),
  ensures folds(f, m, c, init, k + 1, v)
{
  let tr = choose|tr: Seq<F>| #[trigger] fold_trace(f, m, c, init, k, u, tr);
  let t2 = tr.push(v);
  assert forall|t: int| 0 <= t < k + 1 implies call_ensures(f, (&#[trigger] t2[t], &m.at(t, c)), t2[t + 1]) by {
    if t < k { assert(t2[t] == tr[t]); } else { assert(t2[t] == u); }
  }
  assert(fold_trace(f, m, c, init, k + 1, v, t2));
}
@endverbatim
@fn Matrix::reduce
@props C08,C01
@subst T=E,S=F
@pre init@.len() == self.c()
@requires
  self.wf(),
  forall|s: F, e: E| #[trigger] call_requires(f, (&s, &e)),
@ensures
  r.shaped(1, self.c()),
  forall|c: int| 0 <= c < self.c() ==> folds(f, self, c, init@[c], self.no_rows as int, #[trigger] r.data@[c]),
@at L0.before
  let ghost mut row: int = 0;
  proof { assert forall|c: int| 0 <= c < self.c() implies folds(f, self, c, init@[c], 0, #[trigger] data@[c]) by { folds_init(f, self, c, init@[c]); } }
@loop 0 for i
  invariant
    self.wf(), init@.len() == self.c(), data@.len() == self.c(), 0 <= data_idx < self.c(), i == row * self.c() + data_idx, 0 <= row,
    forall|s: F, e: E| #[trigger] call_requires(f, (&s, &e)),
    forall|c: int| 0 <= c < data_idx ==> folds(f, self, c, init@[c], row + 1, #[trigger] data@[c]),
    forall|c: int| data_idx <= c < self.c() ==> folds(f, self, c, init@[c], row, #[trigger] data@[c]),
@at L0.start
  proof { assert(row < self.no_rows) by { if row >= self.no_rows { assert(row * self.c() >= self.no_rows * self.c()) by (nonlinear_arith) requires row >= self.no_rows, self.c() > 0; } } }
  let ghost u = data@[data_idx as int];
  let ghost d0 = data_idx;
@at L0.end
  proof {
    folds_step(f, self, d0 as int, init@[d0 as int], row, u, data@[d0 as int]);
    assert(folds(f, self, d0 as int, init@[d0 as int], row + 1, data@[d0 as int]));
    assert forall|c: int| 0 <= c < d0 implies folds(f, self, c, init@[c], row + 1, #[trigger] data@[c]) by { }
    assert forall|c: int| d0 < c < self.c() implies folds(f, self, c, init@[c], row, #[trigger] data@[c]) by { }
    assert((row + 1) * self.c() == row * self.c() + self.c()) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_self_0(self.c());
    if d0 + 1 < self.c() { vstd::arithmetic::div_mod::lemma_small_mod((d0 + 1) as nat, self.c() as nat); }
    assert((d0 as int + 1) % self.c() == if d0 + 1 == self.c() { 0int } else { d0 + 1 });
    if d0 + 1 == self.c() { row = row + 1; }
  }
@at end
  proof {
    assert(row == self.no_rows && data_idx == 0) by {
      if row < self.no_rows { assert((row + 1) * self.c() <= self.no_rows * self.c()) by (nonlinear_arith) requires row + 1 <= self.no_rows, self.c() > 0; 
         assert((row + 1) * self.c() == row * self.c() + self.c()) by (nonlinear_arith); }
      if row > self.no_rows { assert(row * self.c() >= (self.no_rows + 1) * self.c()) by (nonlinear_arith) requires row >= self.no_rows + 1, self.c() > 0; 
         assert((self.no_rows + 1) * self.c() == self.no_rows * self.c() + self.c()) by (nonlinear_arith); }
    }
  }

@verbatim
// the accepted indices below n, in increasing order
pub open spec fn sel(keep: Seq<bool>, n: int) -> Seq<int>
  decreases n
{
  if n <= 0 { Seq::empty() } else if keep[n - 1] { sel(keep, n - 1).push(n - 1) } else { sel(keep, n - 1) }
}
pub proof fn sel_bounds(keep: Seq<bool>, n: int)
  ensures sel(keep, n).len() <= (if n >= 0 { n } else { 0 }), forall|k: int| 0 <= k < sel(keep, n).len() ==> 0 <= #[trigger] sel(keep, n)[k] < n
  decreases n
{
  if n > 0 { sel_bounds(keep, n - 1); }
}
pub proof fn sel_nonempty(keep: Seq<bool>, n: int, i: int)
  requires 0 <= i < n, keep[i],
  ensures sel(keep, n).len() > 0
  decreases n
{
  if i < n - 1 { sel_nonempty(keep, n - 1, i); }
}
pub proof fn sel_has(keep: Seq<bool>, n: int)
  requires sel(keep, n).len() > 0,
  ensures exists|i: int| 0 <= i < n && #[trigger] keep[i]
  decreases n
{
  if n > 0 { if keep[n - 1] { } else { sel_has(keep, n - 1); } }
}
pub open spec fn kept_by<FN: Fn(&Matrix<E>, usize) -> bool>(f: &FN, a: &Matrix<E>, n: int, keep: Seq<bool>) -> bool {
  keep.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] call_ensures(f, (a, i as usize), keep[i])
}
pub open spec fn rows_picked(r: &Matrix<E>, a: &Matrix<E>, l: Seq<int>) -> bool {
  r.shaped(l.len() as int, a.c()) && forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < a.c() ==> #[trigger] r.at(i, j) == a.at(l[i], j)
}
pub open spec fn cols_picked(r: &Matrix<E>, a: &Matrix<E>, l: Seq<int>) -> bool {
  r.shaped(a.no_rows as int, l.len() as int) && forall|i: int, j: int| 0 <= i < a.no_rows && 0 <= j < l.len() ==> #[trigger] r.at(i, j) == a.at(i, l[j])
}
@endverbatim

@verbatim
pub proof fn sel_prefix(a: Seq<bool>, b: Seq<bool>, n: int)
  requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
  ensures sel(a, n) == sel(b, n)
  decreases n
{
  if n > 0 { sel_prefix(a, b, n - 1); }
}
@endverbatim
@fn Matrix::filter_rows
@props C07,C01
@requires
  self.wf(),
  forall|i: usize| i < self.no_rows ==> #[trigger] call_requires(f, (self, i)),
  acc() ==> exists|i: usize| i < self.no_rows && !(#[trigger] call_ensures(f, (self, i), false)),
@ensures
  exists|keep: Seq<bool>| #[trigger] kept_by(f, self, self.no_rows as int, keep) && rows_picked(&r, self, sel(keep, self.no_rows as int)),
@at L0.before
  let ghost mut keep: Seq<bool> = Seq::empty();
@loop 0 for row
  invariant
    self.wf(), keep.len() == row,
    forall|i: usize| i < self.no_rows ==> #[trigger] call_requires(f, (self, i)),
    forall|i: int| 0 <= i < row ==> #[trigger] call_ensures(f, (self, i as usize), keep[i]),
    rows@.len() == sel(keep, row as int).len(),
    forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] as int == sel(keep, row as int)[k],
@at L0.start
  let ghost n0 = rows@.len();
@at L0.end
  proof {
    let keep2 = keep.push(rows@.len() > n0);
    sel_prefix(keep, keep2, row as int);
    keep = keep2;
  }
@at end
  proof {
    assert(kept_by(f, self, self.no_rows as int, keep));
    sel_bounds(keep, self.no_rows as int);
    assert forall|k: int| 0 <= k < rows@.len() implies 0 <= #[trigger] rows@[k] < self.no_rows by { assert(rows@[k] as int == sel(keep, self.no_rows as int)[k]); }
    assert(rows@.len() * self.c() <= self.no_rows * self.c()) by (nonlinear_arith) requires rows@.len() <= self.no_rows, self.c() > 0;
    assert(self.no_rows * self.c() == self.c() * self.no_rows) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < rows@.len() implies #[trigger] rows@[k] * self.c() <= usize::MAX by { assert(rows@[k] * self.c() <= self.no_rows * self.c()) by (nonlinear_arith) requires rows@[k] <= self.no_rows, self.c() > 0; }
    if acc() {
      let i = choose|i: usize| i < self.no_rows && !(#[trigger] call_ensures(f, (self, i), false));
      assert(call_ensures(f, (self, i as int as usize), keep[i as int]));
      sel_nonempty(keep, self.no_rows as int, i as int);
    }
  }

@fn Matrix::select_rows
@props C07,C01
@pre self.no_rows == selector@.len() && exists|i: int| 0 <= i < selector@.len() && #[trigger] selector@[i]
@requires
  self.wf(),
@ensures
  rows_picked(&r, self, sel(selector@, self.no_rows as int)),
@loop 0 for i
  invariant
    self.wf(), selector@.len() == self.no_rows,
    rows@.len() == sel(selector@, i as int).len(),
    forall|k: int| 0 <= k < rows@.len() ==> #[trigger] rows@[k] as int == sel(selector@, i as int)[k],
@at end
  proof {
    let keep = selector@;
    sel_bounds(keep, self.no_rows as int);
    assert forall|k: int| 0 <= k < rows@.len() implies 0 <= #[trigger] rows@[k] < self.no_rows by { assert(rows@[k] as int == sel(keep, self.no_rows as int)[k]); }
    assert(rows@.len() * self.c() <= self.no_rows * self.c()) by (nonlinear_arith) requires rows@.len() <= self.no_rows, self.c() > 0;
    assert(self.no_rows * self.c() == self.c() * self.no_rows) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < rows@.len() implies #[trigger] rows@[k] * self.c() <= usize::MAX by { assert(rows@[k] * self.c() <= self.no_rows * self.c()) by (nonlinear_arith) requires rows@[k] <= self.no_rows, self.c() > 0; }
    if acc() {
      let i = choose|i: int| 0 <= i < selector@.len() && #[trigger] selector@[i];
      sel_nonempty(keep, self.no_rows as int, i);
    }
    if rows@.len() > 0 { sel_has(keep, self.no_rows as int); }
  }

@fn Matrix::filter_columns
@props C07,C01
@requires
  self.wf(),
  forall|i: usize| i < self.c() ==> #[trigger] call_requires(f, (self, i)),
  acc() ==> exists|i: usize| i < self.c() && !(#[trigger] call_ensures(f, (self, i), false)),
@ensures
  exists|keep: Seq<bool>| #[trigger] kept_by(f, self, self.c() as int, keep) && cols_picked(&r, self, sel(keep, self.c() as int)),
@at L0.before
  let ghost mut keep: Seq<bool> = Seq::empty();
@loop 0 for col
  invariant
    self.wf(), keep.len() == col,
    forall|i: usize| i < self.c() ==> #[trigger] call_requires(f, (self, i)),
    forall|i: int| 0 <= i < col ==> #[trigger] call_ensures(f, (self, i as usize), keep[i]),
    cols@.len() == sel(keep, col as int).len(),
    forall|k: int| 0 <= k < cols@.len() ==> #[trigger] cols@[k] as int == sel(keep, col as int)[k],
@at L0.start
  let ghost n0 = cols@.len();
@at L0.end
  proof {
    let keep2 = keep.push(cols@.len() > n0);
    sel_prefix(keep, keep2, col as int);
    keep = keep2;
  }
@at end
  proof {
    assert(kept_by(f, self, self.c() as int, keep));
    sel_bounds(keep, self.c() as int);
    assert forall|k: int| 0 <= k < cols@.len() implies 0 <= #[trigger] cols@[k] < self.c() by { assert(cols@[k] as int == sel(keep, self.c() as int)[k]); }
    assert(cols@.len() * self.no_rows <= self.c() * self.no_rows) by (nonlinear_arith) requires cols@.len() <= self.c(), self.no_rows > 0;
    assert(self.c() * self.no_rows == self.no_rows * self.c()) by (nonlinear_arith);
    if acc() {
      let i = choose|i: usize| i < self.c() && !(#[trigger] call_ensures(f, (self, i), false));
      assert(call_ensures(f, (self, i as int as usize), keep[i as int]));
      sel_nonempty(keep, self.c() as int, i as int);
    }
  }

@fn Matrix::select_columns
@props C07,C01
@pre self.c() == selector@.len() && exists|i: int| 0 <= i < selector@.len() && #[trigger] selector@[i]
@requires
  self.wf(),
@ensures
  cols_picked(&r, self, sel(selector@, self.c() as int)),
@loop 0 for i
  invariant
    self.wf(), selector@.len() == self.c(),
    cols@.len() == sel(selector@, i as int).len(),
    forall|k: int| 0 <= k < cols@.len() ==> #[trigger] cols@[k] as int == sel(selector@, i as int)[k],
@at end
  proof {
    let keep = selector@;
    sel_bounds(keep, self.c() as int);
    assert forall|k: int| 0 <= k < cols@.len() implies 0 <= #[trigger] cols@[k] < self.c() by { assert(cols@[k] as int == sel(keep, self.c() as int)[k]); }
    assert(cols@.len() * self.no_rows <= self.c() * self.no_rows) by (nonlinear_arith) requires cols@.len() <= self.c(), self.no_rows > 0;
    assert(self.c() * self.no_rows == self.no_rows * self.c()) by (nonlinear_arith);
    if acc() {
      let i = choose|i: int| 0 <= i < selector@.len() && #[trigger] selector@[i];
      sel_nonempty(keep, self.c() as int, i);
    }
    if cols@.len() > 0 { sel_has(keep, self.c() as int); }
  }

@verbatim
// ---- in-place transposition
// where the element stored at offset s of an m-by-c matrix goes, and where the element at offset d of the c-by-m transpose comes from
#[verifier::opaque]
pub open spec fn tdest(s: int, m: int, c: int) -> int { (s % c) * m + s / c }
#[verifier::opaque]
pub open spec fn tsrc(d: int, m: int, c: int) -> int { (d % m) * c + d / m }
pub proof fn lemma_split(s: int, c: int)
  requires c > 0, s >= 0,
  ensures s == (s / c) * c + s % c, 0 <= s % c < c, s / c >= 0
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, c);
  assert((s / c) * c == c * (s / c)) by (nonlinear_arith);
  assert(s / c >= 0) by (nonlinear_arith) requires s >= 0, c > 0;
}
pub proof fn lemma_join(q: int, r: int, c: int)
  requires c > 0, 0 <= r < c, q >= 0,
  ensures (q * c + r) / c == q, (q * c + r) % c == r
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * c + r, c, q, r);
}
pub proof fn lemma_tdest(s: int, m: int, c: int)
  requires m > 0, c > 0, 0 <= s < m * c,
  ensures 0 <= tdest(s, m, c) < m * c, tsrc(tdest(s, m, c), m, c) == s
{
  reveal(tdest); reveal(tsrc);
  lemma_split(s, c);
  let q = s / c; let r = s % c;
  assert(q < m) by { if q >= m { assert(q * c >= m * c) by (nonlinear_arith) requires q >= m, c > 0; } }
  lemma_join(r, q, m);
  assert(r * m + q < m * c) by { assert((r + 1) * m <= c * m) by (nonlinear_arith) requires r + 1 <= c, m > 0; assert((r + 1) * m == r * m + m) by (nonlinear_arith); assert(c * m == m * c) by (nonlinear_arith); }
}
pub proof fn lemma_tsrc(d: int, m: int, c: int)
  requires m > 0, c > 0, 0 <= d < m * c,
  ensures 0 <= tsrc(d, m, c) < m * c, tdest(tsrc(d, m, c), m, c) == d
{
  reveal(tdest); reveal(tsrc);
  lemma_split(d, m);
  let q = d / m; let r = d % m;
  assert(q < c) by { if q >= c { assert(q * m >= c * m) by (nonlinear_arith) requires q >= c, m > 0; assert(c * m == m * c) by (nonlinear_arith); } }
  lemma_join(r, q, c);
  assert(r * c + q < m * c) by { assert((r + 1) * c <= m * c) by (nonlinear_arith) requires r + 1 <= m, c > 0; assert((r + 1) * c == r * c + c) by (nonlinear_arith); }
}
// the closed form the code uses
pub proof fn lemma_tmod(s: int, m: int, c: int)
  requires m > 0, c > 0, 0 <= s < m * c - 1,
  ensures (m * s) % (m * c - 1) == tdest(s, m, c), 0 <= tdest(s, m, c) < m * c - 1
{
  reveal(tdest); reveal(tsrc);
  lemma_split(s, c);
  lemma_tdest(s, m, c);
  let q = s / c; let r = s % c; let n = m * c - 1;
  let d = r * m + q;
  assert(m * s == q * n + d) by (nonlinear_arith) requires s == q * c + r, n == m * c - 1, d == r * m + q;
  // d == n only for the last element
  assert(d != n) by {
    if d == n {
      assert(q < m) by { if q >= m { assert(q * c >= m * c) by (nonlinear_arith) requires q >= m, c > 0; } }
      if r < c - 1 { assert((r + 1) * m <= (c - 1) * m) by (nonlinear_arith) requires r + 1 <= c - 1, m > 0; assert((r + 1) * m == r * m + m) by (nonlinear_arith); assert((c - 1) * m == m * c - m) by (nonlinear_arith); assert(false); }
      assert(r == c - 1);
      assert(r * m == m * c - m) by (nonlinear_arith) requires r == c - 1;
      assert(q == m - 1);
      assert(q * c == m * c - c) by (nonlinear_arith) requires q == m - 1;
      assert(false);
    }
  }
  assert(0 <= d) by (nonlinear_arith) requires d == r * m + q, r >= 0, m > 0, q >= 0;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m * s, n, q, d);
}
pub proof fn lemma_small(m: int, c: int)
  requires m > 0, c > 0,
  ensures tsrc(0, m, c) == 0
{
  reveal(tdest); reveal(tsrc);
  lemma_join(0, 0, m);
  assert(0int * m + 0 == 0);
}
pub proof fn lemma_last(m: int, c: int)
  requires m > 0, c > 0,
  ensures tsrc(m * c - 1, m, c) == m * c - 1
{
  reveal(tdest); reveal(tsrc);
  lemma_join(c - 1, m - 1, m);
  assert((c - 1) * m + (m - 1) == m * c - 1) by (nonlinear_arith);
  assert((m - 1) * c + (c - 1) == m * c - 1) by (nonlinear_arith);
}
pub proof fn lemma_tat(i: int, j: int, m: int, c: int)
  requires 0 <= i < c, 0 <= j < m,
  ensures tsrc(i * m + j, m, c) == j * c + i, 0 <= i * m + j < m * c
{
  reveal(tsrc);
  lemma_join(i, j, m);
  assert(i * m + j < m * c) by { assert((i + 1) * m <= c * m) by (nonlinear_arith) requires i + 1 <= c, m > 0; assert((i + 1) * m == i * m + m) by (nonlinear_arith); assert(m * c == c * m) by (nonlinear_arith); }
}
pub proof fn lemma_subset_len(s: Set<int>, n: int)
  requires forall|x: int| s.contains(x) ==> 0 <= x < n, n >= 0,
  ensures s.len() <= n
{
  vstd::set_lib::lemma_int_range(0, n);
  let full = vstd::set_lib::set_int_range(0, n);
  assert(s.subset_of(full));
  vstd::set_lib::lemma_len_subset(s, full);
}
// state of the element vector while a cycle is being written: p: positions of finished cycles, s: sources already moved on this cycle
pub open spec fn mt_state(d: Seq<E>, d0: Seq<E>, p: Set<int>, s: Set<int>, start: int, idx: int, m: int, c: int) -> bool {
  &&& d.len() == d0.len()
  &&& forall|x: int| 0 <= x < d.len() ==> #[trigger] d[x] == if p.contains(x) || ((s.contains(x) || x == idx) && x != start) { d0[tsrc(x, m, c)] } else { d0[x] }
}
pub open spec fn mt_closed(p: Set<int>, m: int, c: int) -> bool {
  &&& forall|x: int| #[trigger] p.contains(x) ==> 1 <= x < m * c - 1
  &&& forall|x: int| #![trigger p.contains(tdest(x, m, c))] p.contains(x) ==> p.contains(tdest(x, m, c))
  &&& forall|x: int| #![trigger p.contains(tsrc(x, m, c))] p.contains(x) ==> p.contains(tsrc(x, m, c))
}
@endverbatim
@fn Matrix::mt
@props C04,C01
@requires
  old(self).wf(), old(self).no_rows * old(self).data@.len() <= usize::MAX,
@ensures
  final(self).shaped(old(self).c(), old(self).no_rows as int),
  forall|i: int, j: int| 0 <= i < old(self).c() && 0 <= j < old(self).no_rows ==> #[trigger] final(self).at(i, j) == old(self).at(j, i),
@at start
  let ghost m = self.no_rows as int;
  let ghost c = self.c();
  let ghost d0 = self.data@;
  let ghost n = d0.len() - 1;
  let ghost mut p: Set<int> = Set::empty();
@loop 0 for cycle_idx
  invariant
    self.no_rows == m, m > 0, c > 0, self.data@.len() == d0.len(), d0.len() == m * c, d0.len() - 1 == n, visited@.len() == d0.len(),
    m * d0.len() <= usize::MAX,
    mt_closed(p, m, c), $it.snapshot@.end == n,
    forall|x: int| 0 <= x < d0.len() ==> #[trigger] self.data@[x] == if p.contains(x) { d0[tsrc(x, m, c)] } else { d0[x] },
    forall|x: int| 1 <= x < $i ==> #[trigger] p.contains(x),
    forall|x: int| $i <= x < n ==> #[trigger] visited@[x] == p.contains(x),
@at L0.0.before
  let ghost mut s: Set<int> = Set::empty();
@loop 0.0 loop
  invariant_except_break
    1 <= idx < n, !p.contains(idx as int), !s.contains(idx as int),
    forall|x: int| #[trigger] s.contains(x) ==> 1 <= x < n && !p.contains(x),
    forall|x: int| #![trigger s.contains(tdest(x, m, c))] s.contains(x) ==> (s.contains(tdest(x, m, c)) || tdest(x, m, c) == idx),
    s.contains(cycle_idx as int) || idx == cycle_idx,
    forall|x: int| #![trigger s.contains(tsrc(x, m, c))] (s.contains(x) && x != cycle_idx) ==> s.contains(tsrc(x, m, c)),
    idx != cycle_idx ==> s.contains(tsrc(idx as int, m, c)),
    mt_state(self.data@, d0, p, s, cycle_idx as int, idx as int, m, c),
    prev_value == d0[idx as int],
    forall|x: int| cycle_idx < x < n ==> #[trigger] visited@[x] == (p.contains(x) || s.contains(x) || x == idx),
  invariant
    self.no_rows == m, m > 0, c > 0, self.data@.len() == d0.len(), d0.len() == m * c, d0.len() - 1 == n, visited@.len() == d0.len(),
    m * d0.len() <= usize::MAX,
    mt_closed(p, m, c), 1 <= cycle_idx < n, !p.contains(cycle_idx as int),
    forall|x: int| 1 <= x < cycle_idx ==> #[trigger] p.contains(x),
  ensures
    mt_closed(p.union(s), m, c), s.contains(cycle_idx as int),
    forall|x: int| 0 <= x < d0.len() ==> #[trigger] self.data@[x] == if p.contains(x) || s.contains(x) { d0[tsrc(x, m, c)] } else { d0[x] },
    forall|x: int| cycle_idx < x < n ==> #[trigger] visited@[x] == (p.contains(x) || s.contains(x)),
  decreases n - s.len(),
@at L0.0.start
  let ghost i0 = idx as int;
  proof {
    lemma_tmod(i0, m, c); lemma_tdest(i0, m, c); lemma_tdest(0, m, c); lemma_tsrc(0, m, c);
    assert(m * i0 <= m * d0.len()) by (nonlinear_arith) requires i0 <= d0.len(), m > 0;
    let d = tdest(i0, m, c);
    assert(tsrc(0, m, c) == 0) by { lemma_small(m, c); }
    assert(d != 0);
    assert(!s.contains(d) || d == cycle_idx) by { if s.contains(d) && d != cycle_idx { assert(s.contains(tsrc(d, m, c))); assert(tsrc(d, m, c) == i0); } }
    assert(!p.contains(d)) by { if p.contains(d) { assert(p.contains(tsrc(d, m, c))); } }
    lemma_subset_len(s.insert(i0), n);
    assert(forall|x: int| s.contains(x) ==> 0 <= x < n);
    lemma_subset_len(s, n);
  }
@at if1.then
  proof {
    let s0 = s;
    let s2 = s.insert(i0);
    let q = p.union(s2);
    assert forall|x: int| #![trigger q.contains(tdest(x, m, c))] q.contains(x) implies q.contains(tdest(x, m, c)) by {
      assert(p.contains(x) ==> p.contains(tdest(x, m, c)));
      assert(s.contains(x) ==> s.contains(tdest(x, m, c)) || tdest(x, m, c) == i0);
    }
    assert forall|x: int| #![trigger q.contains(tsrc(x, m, c))] q.contains(x) implies q.contains(tsrc(x, m, c)) by {
      assert(p.contains(x) ==> p.contains(tsrc(x, m, c)));
      assert(s.contains(x) && x != cycle_idx ==> s.contains(tsrc(x, m, c)));
      assert(x == i0 && x != cycle_idx ==> s.contains(tsrc(x, m, c)));
      assert(x == cycle_idx ==> tsrc(x, m, c) == i0);
    }
    s = s2;
  }
@at L0.0.end
  proof {
    s = s.insert(i0);
  }
@at L0.0.after
  proof {
    p = p.union(s);
  }
@at end
  proof {
    if n >= 0 { assert forall|x: int| 0 <= x < d0.len() implies #[trigger] self.data@[x] == d0[tsrc(x, m, c)] by {
      if x == 0 { lemma_small(m, c); } else if x == n { lemma_last(m, c); } else { assert(p.contains(x)); }
    } }
    assert(m * c == c * m) by (nonlinear_arith);
    assert forall|i: int, j: int| 0 <= i < c && 0 <= j < m implies #[trigger] self.data@[i * m + j] == d0[j * c + i] by {
      lemma_tat(i, j, m, c);
    }
  }
@end

@fn Matrix::is_symmetric
@props C12
@requires self.wf(),
@ensures
  r == (self.no_rows == self.c() && forall|i: int, j: int| 0 <= j < i < self.no_rows ==> #[trigger] e_approx(self.at(i, j), self.at(j, i))),
@loop 0 for row
  invariant
    self.wf(), self.no_rows == self.c(), $it.snapshot@.end == self.no_rows,
    forall|i: int, j: int| 0 <= j < i < $i ==> #[trigger] e_approx(self.at(i, j), self.at(j, i)),
@loop 0.0 for col
  invariant
    self.wf(), self.no_rows == self.c(), row < self.no_rows,
    forall|i: int, j: int| 0 <= j < i < row ==> #[trigger] e_approx(self.at(i, j), self.at(j, i)),
    forall|j: int| 0 <= j < col ==> #[trigger] e_approx(self.at(row as int, j), self.at(j, row as int)),

@fn Matrix::is_non_symmetric
@props C12
@requires self.wf(),
@ensures
  r == !(self.no_rows == self.c() && forall|i: int, j: int| 0 <= j < i < self.no_rows ==> #[trigger] e_approx(self.at(i, j), self.at(j, i))),

@fn Matrix::approx_eq
@props C12
@requires self.wf(), m.wf(),
@ensures
  r == (same_shape(self, m) && forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] e_approx(self.data@[k], m.data@[k])),
@loop 0 for i
  invariant
    self.data@.len() == m.data@.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] e_approx(self.data@[k], m.data@[k]),
