// ---------------------------------------------------------------- the matrix view
impl<T> Matrix<T> {
  pub open spec fn c(&self) -> int { self.data@.len() as int / self.no_rows as int }
  pub open spec fn wf(&self) -> bool {
    &&& self.no_rows > 0
    &&& self.c() > 0
    &&& self.no_rows as int * self.c() == self.data@.len()
    &&& self.data@.len() <= isize::MAX
  }
  pub open spec fn at(&self, i: int, j: int) -> T { self.data@[i * self.c() + j] }
  pub open spec fn shaped(&self, m: int, n: int) -> bool { self.wf() && self.no_rows == m && self.c() == n }
}
pub open spec fn same_shape<A, B>(a: &Matrix<A>, b: &Matrix<B>) -> bool { a.no_rows == b.no_rows && a.c() == b.c() }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }

