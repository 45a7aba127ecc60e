#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only so the statements stay readable)."""
import json
V="src/vector.rs"; M="src/matrix/mod.rs"; A="src/matrix/arith.rs"; O="src/matrix/ops.rs"; I="src/matrix/iter.rs"
P=[]
def where(m,files):
    return files[0] if len(files)==1 else ", ".join(files)
def p(id,title,statement,over,text,why,files,mech,notes=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":m,"where":where(m,files)} for m in mech]}})
p("P01","Vector construction and views preserve length, order and identity of elements",
 "For every element type T and every length N: Vector::new(a).into_inner() gives back a; len() is N and is_empty() is N == 0; as_slice, as_ref, deref, iter (and the mutable views as_slice_mut, as_mut, deref_mut, iter_mut) expose exactly the N elements of the array in index order, and writing through a mutable view at position k changes position k and nothing else; Vector::generate(f) calls f exactly once for each of 0,1,..,N-1 in ascending order and puts f(k) at position k.",
 ["inputs"],"all N in 0..=32, all element values, all generator functions",
 "The unit tests build a handful of i32 vectors of length 2..6; the guarantee is for every length and every element type.",
 [V],["Vector::new","Vector::into_inner","Vector::as_slice","Vector::generate","Vector::iter","Vector::len","Deref/AsRef/AsMut impls"])
p("P02","Collecting into a Vector takes the N items in order or panics",
 "For every iterator, collecting into Vector<T,N> (FromIterator) calls next() until it has N items; if the iterator yields exactly N items the result holds them in the order produced; if it ends early the call panics (it never returns a vector with a missing, repeated or uninitialised element).",
 ["inputs","histories"],"all N, all iterators (any yield sequence, including ones ending at any point), all element values",
 "No unit test collects from a short iterator, and none checks more than a few lengths; the loop writes through raw pointers into uninitialised memory.",
 [V],["FromIterator::from_iter","IntoIterator::into_iter"])
p("P03","Every element is owned exactly once: no leak, double drop or wild access",
 "For every element type and every sequence of safe operations - collecting (also from an iterator that ends early and makes the collect panic), consuming a vector by value through any interleaving of next, next_back, nth, count and dropping the iterator part-way, into_chunks consumed from either end, map, arithmetic by value or reference, clone, transpose, index assignment - each element that was moved in is either handed out to the caller once or dropped once, never both, never twice, and no operation reads or drops memory outside the live elements.",
 ["histories","inputs"],"all N, all operation sequences over the by-value iterators and consumers, all stopping points",
 "Double drops and leaks of Copy integers are invisible to the existing tests; they need drop-counting elements and mixed front/back consumption.",
 [V,M],["IntoIter::next/next_back/nth/drop","FromIterator::from_iter","Chunks::next/next_back"])
p("P04","Vector's by-value iterator is an exact double-ended queue of the elements",
 "For every vector v and every sequence of next, next_back, nth(k) (any usize k), len, size_hint, count and rev on v.into_iter(), the iterator behaves as a double-ended queue that initially holds v's elements in order: next pops the front, next_back pops the back, nth(k) discards min(k, remaining) from the front and pops the front, len/size_hint/count report the number remaining, and once it is empty every further call returns None.",
 ["histories","inputs"],"all N, all interleavings of operations, all usize arguments of nth",
 "The unit test calls nth(1) once and rev() once; mixed-end histories and nth past the end are not covered.",
 [V],["IntoIter","Vector::into_iter"])
p("P05","into_chunks partitions a vector into consecutive chunks from either end",
 "For every vector of length N and chunk length I >= 1 dividing N, into_chunks::<I>() is a double-ended exact-size iterator over the N/I consecutive chunks: chunk c holds elements c*I .. c*I+I in order, whichever end it is taken from and in whatever interleaving of next and next_back; len and size_hint report the chunks remaining; exhausted means None.",
 ["histories","inputs"],"all N and I with I | N, all interleavings of next and next_back",
 "One test consumes a 6-vector by 2 from each end; element order inside chunks taken from the back, mixed ends and other shapes are not covered.",
 [V],["Vector::into_chunks","Chunks::next","Chunks::next_back","Chunks::size_hint"])
p("P06","Vector indexing addresses the right element and panics exactly when out of range",
 "For every vector v of length N: v[i] and v[i] = x with i: usize address element i when i < N and panic when i >= N; v[Uk::new()] with a type-level k < N addresses element k (also for k = 0), without panicking; assignment through an index changes that element only; get_unchecked(i)/get_unchecked_mut(i) with i < N address element i; no safe indexing expression reads outside the vector.",
 ["inputs"],"all N, all indices (dynamic: every usize), all element values",
 "Tests index a few small vectors at in-range positions; unchecked access makes a wrong bound memory-unsafe rather than a visible failure.",
 [V],["Index<usize>","Index<UInt>","Index<U0>","IndexMut impls","get_unchecked","get_unchecked_mut"])
p("P07","Matrix construction, dimensions and conversions are row-major and faithful",
 "For all Row, Col: Matrix::new(rows)[(i,j)] == rows[i][j]; rows() == Row, cols() == Col, dim() == (Row, Col); Matrix::generate(f) calls f exactly once per index in row-major order and puts f((i,j)) at (i,j); Matrix::from(v) for a vector of length Row*Col puts v[i*Col+j] at (i,j) (Col >= 1).",
 ["inputs"],"all Row and Col, all element values, all generator functions",
 "Tests use square 2x2 matrices almost exclusively; row/column confusions only show on non-square shapes.",
 [M],["Matrix::new","Matrix::generate","From<Vector>","Matrix::dim","Matrix::rows","Matrix::cols"])
p("P08","Matrix indexing addresses (row, column) and panics exactly when out of range",
 "For all Row, Col: m[(i,j)] and m[(i,j)] = x with usize indices address row i, column j when i < Row and j < Col and panic otherwise; the four type-level forms (both positive, row 0, column 0, both 0) address the same element as the dynamic form; writing changes that entry only; get_unchecked/get_unchecked_mut agree for in-range indices.",
 ["inputs"],"all Row and Col, all index pairs (dynamic: every usize pair), all element values",
 "Only a few in-range indexings of 2x2 matrices are tested, and the type-level forms use unchecked memory access.",
 [M],["Index<MatrixIdx>","Index<(UInt,UInt)>","Index<(U0,U0)>","Index<(UInt,U0)>","Index<(U0,UInt)>","IndexMut impls","get_unchecked"])
p("P09","Matrix map, all and any visit entries in row-major order with the right indices",
 "For all Row, Col: m.map(f)[(i,j)] == f((i,j), m[(i,j)]), f being called once per entry in row-major order; m.all(p) is true iff p((i,j), &m[(i,j)]) holds for every entry and stops calling p at the first false; m.any(p) is true iff it holds for some entry and stops at the first true (for an empty matrix all is true and any is false).",
 ["inputs"],"all Row and Col, all element values, all (possibly stateful) callbacks",
 "all/any/map are only exercised with index-ignoring callbacks on 2x2 matrices.",
 [M],["Matrix::map","Matrix::all","Matrix::any"])
p("P10","Transposition swaps rows and columns for every shape",
 "For all Row, Col: m.transposed() has dimensions (Col, Row) and m.transposed()[(j,i)] == m[(i,j)] for every entry, m itself unchanged; m.transpose() on a square matrix leaves exactly m.transposed(); transposing twice restores the matrix; the transpose of a product (commutative T) is the product of the transposes reversed.",
 ["inputs"],"all Row and Col, all element values",
 "Only one 2x2 matrix is transposed in the tests.",
 [M,I],["Matrix::transposed","Matrix::transpose","ColsIter"])
p("P11","Row and column iterators are exact double-ended queues of rows and columns",
 "For every matrix and each of rows_iter, cols_iter, rows_iter_ref, cols_iter_ref and the per-column iterator cols_iter_ref yields: under every interleaving of next, next_back, nth(k) (any usize k), len, size_hint, count and last, the iterator behaves as a double-ended queue initially holding the rows (columns, or one column's entries) in order: right items, right remaining count (also after next_back and after nth past the end), None once exhausted; no entry outside the matrix is ever read, for any arguments the public constructors accept.",
 ["histories","inputs"],"all Row and Col, all interleavings of operations, all usize arguments",
 "The unit test walks one 2x3 matrix straight forward and straight backward; interleaved consumption, nth and the counts after next_back are not tested.",
 [I,M],["RowsIter","ColsIter","RowsIterRef","ColsIterRef","ColsIterRefInner"])
p("P12","Vector arithmetic is elementwise in every operand form",
 "For all N and all element types with the operator: (a+b)[k] == a[k]+b[k] and (a-b)[k] == a[k]-b[k] in all four by-value/by-reference forms, operands in that order; a += b and a -= b apply the element's compound operator at each position; (v*s)[k] == v[k]*s, (v/s)[k] == v[k]/s, v *= s, v /= s likewise; (-v)[k] == -v[k]; every element position is covered exactly once.",
 ["inputs"],"all N in 0..=32, all operand values, element types with arbitrary (also non-commutative) operators",
 "The test checks one 3-vector of i32 per form; each form is a separate instantiation of the code.",
 [V],["impl_vector_arith!","AddAssign","SubAssign","Mul<U>","MulAssign<U>","Div<U>","DivAssign<U>","Neg"])
p("P13","Matrix elementwise arithmetic is entrywise in every operand form",
 "For all Row, Col: (a+b)[(i,j)] == a[(i,j)]+b[(i,j)] and the same for -, in all four by-value/by-reference forms, operands in that order; a += b, a -= b; unary minus; multiplication and division by a scalar (by value, by reference, and in place) with the entry on the left and the scalar on the right; conjugate() conjugates each complex entry.",
 ["inputs"],"all Row and Col, all operand values, element types with arbitrary (also non-commutative) operators",
 "Tested on 2x2 integer matrices only; a slip in one operand form or one shape passes.",
 [A,M],["impl_matrix_arith!","AddAssign","SubAssign","Neg","Mul<T>","Mul<&T>","MulAssign<T>","Div<T>","Div<&T>","DivAssign<T>","Matrix::conjugate"])
p("P14","Matrix-matrix and matrix-vector products compute the row-by-column sums",
 "For all conforming shapes and every element type with + , * and zero: (a*b)[(i,j)] is the sum over k of a[(i,k)]*b[(k,j)] (left factor on the left, also for non-commutative elements), for the four by-value/by-reference forms and for a *= b; (m*v)[i] is the sum over k of m[(i,k)]*v[k], for v by value and by reference; an inner dimension of 0 gives zeros.",
 ["inputs"],"all LRow, N, RCol, all operand values",
 "Products are only tested on 2x2 and 2x1 shapes; index swaps that are invisible on square or symmetric inputs are not covered.",
 [A],["Mul<Matrix>","Mul<&Matrix>","MulAssign<Matrix>","Mul<Vector>","Mul<&Vector>"])
p("P15","Dot product, cross product and norm follow their definitions",
 "For all N: a.dot(&b) is the sum over k of a[k]*b[k] starting from zero; a.cross(&b) is (a1*b2-a2*b1, a2*b0-a0*b2, a0*b1-a1*b0) for the 3-vectors; v.norm() is the square root of the sum of x.powi(2) over v's elements; v.normalized() is v with every element divided by v.norm().",
 ["inputs"],"all N, all operand values, every element type with the required operators",
 "One example each is tested.",
 [V],["Vector::dot","Vector::cross","Vector::norm","Vector::normalized"])
p("P16","Zero, one, identity, diagonal and power are the algebraic ones",
 "For all shapes: identity() and One::one() have one on the diagonal and zero elsewhere and are neutral for the product; diag(e) has e[k] at (k,k) and zero elsewhere, also for non-square shapes; Zero::zero(), Default::default() and Bounded::min_value/max_value (vectors and matrices) have that element value at every position, is_zero() is true iff every element is zero; m.pow(k) is the k-fold product of m, pow(0) being the identity.",
 ["inputs"],"all shapes, all element values, all exponents",
 "Tests check one 3x3 zero, 2x2 identity and a few powers; non-square diag is not run at all.",
 [M,V],["Matrix::identity","Matrix::diag","num::Zero","num::One","num::Bounded","Default","Matrix::pow"])
p("P17","Determinant and cofactor equal the Leibniz/minor definition over any field",
 "For every N >= 1 and every N x N matrix over a field: determinant() equals the sum over permutations of signed products (equivalently the Laplace expansion), including singular matrices and matrices with zero pivots; cofactor((i,j)) equals (-1)^(i+j) times the determinant of the matrix without row i and column j for N >= 2 and in-range i, j, and panics for out-of-range i or j.",
 ["inputs"],"all N, all matrices over a field, all index pairs",
 "Tests check four determinants, one of them with an assertion that is never evaluated; zero-pivot fallback paths are not exercised.",
 [O],["Determinant for U1, U2, U3, N>3","Cofactor for U2, U3, N>3"])
p("P18","Inverse returns the inverse of every invertible matrix and None otherwise",
 "For every N >= 1 and every N x N matrix a over a field: if a is invertible, inverse() returns Some(b) with a*b == b*a == identity; if a is singular it returns None; in particular an invertible matrix with zeros on the diagonal is inverted.",
 ["inputs"],"all N, all matrices over a field",
 "Three invertible matrices are tested; singular ones and ones that need row exchanges are not.",
 [O],["Inverse for U1, U2, U3, N>3"])
p("P19","Sum, max, min and their comparator forms reduce over every element",
 "For all shapes: sum() of a vector or matrix is the sum of all elements (zero when empty); max() and min() of a non-empty vector or square matrix return an element that is >= (<=) every element; max_by(c)/min_by(c) return an element that no element compares Greater than (Less than) under a comparator c that is a total order, calling c only on elements of the container.",
 ["inputs"],"all shapes, all element values, all total-order comparators",
 "Tests use one ascending 3-vector and one 2x2 matrix, so first/last-position slips pass.",
 [V,M],["Vector::sum","Vector::max","Vector::min","Vector::max_by","Vector::min_by","Matrix::sum","Matrix::max","Matrix::min","Matrix::max_by","Matrix::min_by"])
p("P20","clamp and clamped limit every element to [min, max] and change nothing else",
 "For all shapes and all min <= max: v.clamped(min,max) has at each position min if the element is < min, max if it is > max, and the element itself otherwise; v.clamp(min,max) leaves v equal to v.clamped(min,max); the same for matrices.",
 ["inputs"],"all shapes, all element values, all bounds min <= max",
 "One example each.",
 [V,M],["Vector::clamp","Vector::clamped","Matrix::clamp","Matrix::clamped"])
p("P21","Equality and clone agree with the elements",
 "For all shapes: two vectors (matrices) are equal iff all corresponding elements are equal, also across different element types for vectors, and != is its negation; clone() is an element-by-element clone in order: it equals the original and writing to either afterwards leaves the other unchanged.",
 ["inputs"],"all shapes, all element values",
 "assert_eq! in the tests is only ever evaluated on equal values.",
 [V,M],["PartialEq","Clone"])
p("P22","Approximate equality holds iff it holds for every pair of entries",
 "For all shapes: Matrix::relative_eq(a,b,eps,rel) (ulps_eq(a,b,eps,ulps)) is true iff the element comparison with the same tolerances is true for every entry pair; default_epsilon, default_max_relative and default_max_ulps are those of the element type.",
 ["inputs"],"all shapes, all element values, all tolerances",
 "The tests only compare scalars.",
 [M],["ApproxEq for Matrix"])
p("P23","Type-level lengths, macros and aliases denote the shapes they name",
 "For k in 0..=32 the array of Uk has k elements; Min<A,B> is the smaller number; vector![..] with k elements has length k and those elements in order; matrix![[..],..] with r rows of c elements is r x c with those entries; each prelude alias VectorKfW / MatrixKfW has K elements (K x K entries) of type fW.",
 ["inputs"],"all 33 lengths, all pairs of lengths, literals of every supported size, all 26 aliases",
 "A few literals and lengths are tested; aliases and most lengths are not.",
 [V,"src/util.rs","src/macros.rs","src/prelude.rs"],["impl_arraylen!","Min","vector!","matrix!","Vector1f32..Matrix4f64"])
p("P24","Debug output of vectors and matrices lists the elements in order for every shape",
 "For all shapes, formatting with {:?} does not panic and yields Vector[e0, e1, ..] for a vector and Matrix[[..], [..], ..] (rows in order, entries in order, separated by a comma and a space) for a matrix, also when there are no rows or columns.",
 ["inputs"],"all shapes, all element types implementing Debug",
 "One 2x2 matrix is formatted; empty shapes are not.",
 [V,M],["Debug for Vector","Debug for Matrix"])
p("P25","Display lays a matrix out as an aligned bracketed grid",
 "For every matrix of elements implementing Display, Display writes each entry's text once, row by row, columns padded to the widest entry and cells centred, multi-line entries occupying several lines, inside the bracket characters.",
 ["inputs"],"all shapes, all entry texts",
 "Two examples are tested.",
 [M],["Display for Matrix"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
