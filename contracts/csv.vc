@verbatim
// ---------------------------------------------------------------- C28: read_csv over a model of the standard library's reader
// TRUSTED: what std::fs, std::io and str do.  disk(name) is None when there is no such file, otherwise its lines in
// order, None for a line that cannot be read.
use vstd::std_specs::iter::IteratorSpec;
pub uninterp spec fn disk(name: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
// the maximal pieces between separators; always at least one
pub open spec fn pieces(s: Seq<char>, sep: char) -> Seq<Seq<char>>
  decreases s.len()
{
  if s.len() == 0 { seq![s] }
  else {
    let p = pieces(s.drop_last(), sep);
    if s.last() == sep { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
  }
}
pub proof fn pieces_some(s: Seq<char>, sep: char)
  ensures pieces(s, sep).len() > 0,
  decreases s.len(),
{ if s.len() > 0 { pieces_some(s.drop_last(), sep) } }
pub open spec fn fields(line: Option<Seq<char>>) -> Seq<Seq<char>> { pieces(line->0, ',') }
pub struct Line { pub t: Ghost<Seq<char>> }
pub struct Piece { pub t: Ghost<Seq<char>> }
impl Line {
  #[verifier::external_body]
  pub fn split(&self, sep: &str) -> (r: std::vec::IntoIter<Piece>)
    ensures
      r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
      sep@.len() == 1 ==> r.remaining().len() == pieces(self.t@, sep@[0]).len(),
      sep@.len() == 1 ==> forall|k: int| 0 <= k < r.remaining().len() ==> (#[trigger] r.remaining()[k]).t@ == pieces(self.t@, sep@[0])[k],
  { unimplemented!() }
}
impl Piece {
  #[verifier::external_body]
  pub fn trim(&self) -> (r: &str) ensures r@ == trimmed(self.t@) { unimplemented!() }
}
pub open spec fn line_of(l: Option<Line>) -> Option<Seq<char>> { match l { None => None, Some(x) => Some(x.t@) } }
pub mod path {
  use super::*;
  pub struct Path { pub name: Ghost<Seq<char>> }
  impl Path { #[verifier::external_body] pub fn new(s: &str) -> (r: Path) ensures r.name@ == s@ { unimplemented!() } }
}
pub mod fs {
  use super::*;
  pub struct File { pub name: Ghost<Seq<char>> }
  impl File { #[verifier::external_body] pub fn open(p: &path::Path) -> (r: Option<File>) ensures r is Some <==> disk(p.name@) is Some, r is Some ==> r->0.name@ == p.name@ { unimplemented!() } }
}
pub mod io {
  use super::*;
  pub struct BufReader { pub name: Ghost<Seq<char>> }
  impl BufReader {
    #[verifier::external_body] pub fn new(f: fs::File) -> (r: BufReader) ensures r.name@ == f.name@ { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self) -> (r: std::vec::IntoIter<Option<Line>>)
      ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        disk(self.name@) is Some ==> r.remaining().len() == disk(self.name@)->0.len() && forall|k: int| 0 <= k < r.remaining().len() ==> line_of(#[trigger] r.remaining()[k]) == disk(self.name@)->0[k],
    { unimplemented!() }
  }
}
// TRUSTED: a Vec never holds more than isize::MAX bytes
pub axiom fn vec_bound(d: &Vec<E>)
  ensures d@.len() <= isize::MAX;
// e is what the parser made of the text t
pub open spec fn parsed<P: Fn(&str) -> E>(p: &P, t: Seq<char>, e: E) -> bool { exists|s: &str| s@ == t && #[trigger] call_ensures(p, (s,), e) }
pub open spec fn row_done<P: Fn(&str) -> E>(p: &P, f: Seq<Seq<char>>, d: Seq<E>, at: int, hi: int) -> bool { forall|j: int| 0 <= j < hi ==> parsed(p, trimmed(#[trigger] f[j]), d[at + j]) }
pub open spec fn rows_done<P: Fn(&str) -> E>(p: &P, x: Seq<Option<Seq<char>>>, d: Seq<E>, c: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] row_done(p, fields(x[i]), d, i * c, c) }
// every line is readable and has as many fields as the first
pub open spec fn good(x: Seq<Option<Seq<char>>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] x[i]) is Some && fields(x[i]).len() == fields(x[0]).len() }
@endverbatim
@file util.rs
@fn read_csv
@props C28
@pre disk(buf_reader_name@) is Some && disk(buf_reader_name@)->0.len() > 0 && good(disk(buf_reader_name@)->0, disk(buf_reader_name@)->0.len() as int)
@requires
  forall|s: &str| #[trigger] call_requires(parser, (s,)),
@ensures
  r.shaped(disk(buf_reader_name@)->0.len() as int, fields(disk(buf_reader_name@)->0[0]).len() as int),
  rows_done(parser, disk(buf_reader_name@)->0, r.data@, fields(disk(buf_reader_name@)->0[0]).len() as int, disk(buf_reader_name@)->0.len() as int),
@at let:buf_reader.after
  let ghost x = disk(buf_reader_name@)->0;
  let ghost c = fields(x[0]).len() as int;
@at L0.start
  let ghost k = row_count as int;
  let ghost d0 = data@;
  let ghost f = fields(x[k]);
  proof {
    assert(line_of(line) == x[k]);
    assert(acc() ==> x[k] is Some);
    pieces_some(x[k]->0, ',');
    pieces_some(x[0]->0, ',');
    reveal_strlit(",");
    assert(k * c + c == (k + 1) * c) by (nonlinear_arith);
  }
@at L0.end
  proof {
    assert(f.len() == c);
    assert(x[k] is Some);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] row_done(parser, fields(x[i]), data@, i * c, c) by {
      if i < k {
        assert(row_done(parser, fields(x[i]), d0, i * c, c));
        assert(i * c + c <= k * c && 0 <= i * c) by (nonlinear_arith) requires 0 <= i < k, c >= 1;
        assert forall|j: int| 0 <= j < c implies parsed(parser, trimmed(#[trigger] fields(x[i])[j]), data@[i * c + j]) by { assert(data@[i * c + j] == d0[i * c + j]); }
      }
    }
    assert(k + 1 <= (k + 1) * c) by (nonlinear_arith) requires c >= 1, k >= 0;
    assert(good(x, k + 1));
  }
@loop 0 for line
  invariant
    forall|s: &str| #[trigger] call_requires(parser, (s,)),
    $it.snapshot@.remaining().len() == x.len(),
    forall|i: int| 0 <= i < x.len() ==> line_of(#[trigger] $it.snapshot@.remaining()[i]) == x[i],
    acc() ==> good(x, x.len() as int),
    c == fields(x[0]).len(),
    row_count == $k, data@.len() == $k * c,
    good(x, $k),
    rows_done(parser, x, data@, c, $k),
    $k == 0 ==> col_count == None::<usize>,
    $k > 0 ==> col_count == Some(c as usize) && c <= usize::MAX,
@loop 0.0 for item
  invariant
    forall|s: &str| #[trigger] call_requires(parser, (s,)),
    $it.snapshot@.remaining().len() == f.len(),
    forall|j: int| 0 <= j < f.len() ==> (#[trigger] $it.snapshot@.remaining()[j]).t@ == f[j],
    data@.len() == element_count + $k, element_count == d0.len(),
    forall|j: int| 0 <= j < d0.len() ==> #[trigger] data@[j] == d0[j],
    row_done(parser, f, data@, d0.len() as int, $k),
@at L0.0.start
  let ghost d1 = data@;
  let ghost q = data@.len() - d0.len();
@at L0.0.end
  proof {
    assert(parsed(parser, trimmed(f[q]), data@[d0.len() + q]));
    assert forall|j: int| 0 <= j < q + 1 implies parsed(parser, trimmed(#[trigger] f[j]), data@[d0.len() + j]) by { if j < q { assert(data@[d0.len() + j] == d1[d0.len() + j]); } }
  }
@at end
  proof { vec_bound(&data); assert(x.len() * c > 0) by (nonlinear_arith) requires x.len() > 0, c > 0; }
