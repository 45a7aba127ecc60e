"""What each check runs and what its result means."""
TRUSTED = ['rustc (both toolchains)', 'Kani 0.68 MIR-to-goto translation', 'CBMC 6 and its SAT solver',
           'stub: core::mem::uninitialized returns arbitrary bytes under Kani (the real one fills with 0x01)']
ASSUMPTIONS = ['each contract harness names one shape; the crate code is generic in the shape and has no shape-specific branches',
               'Kani does not model unwinding: a panic ends the path']

V = 'complete for each vector length named; every bit pattern of every element symbolic'
M = 'bounded: complete for each matrix shape named (every entry symbolic), shapes sampled'
# what the Verus contracts settle for every shape and every value, and what stays with Kani (named shapes)
VERUS = {
 'P01': 'construction, conversions, views (also mutable ones, through prophecies) and generate: position k holds f(k), and f, as a state machine with any step relation, is called on 0, 1, .., N-1 in that order and no more',
 'P02': 'from_iter: it returns without a panic for a source of exactly N items, and whenever it returns, the source had yielded at least N items and the result is the first N in order, whatever the source; left to Kani and execution: that the short case ends in a panic rather than in non-termination or an abort',
 'P03': 'a ledger of live slots as ghost state of the manually managed storage: every raw read, write and drop of a slot, every conversion from and to an ordinary array and every mem::forget is checked against it in from_iter (also where it panics), into_iter, next, next_back, nth, count, chunk next/next_back and Drop for IntoIter (which leaves no live slot); every other function is accepted by the borrow checker with its unsafe blocks only forming references to in-range entries; user callbacks and element operations that panic are not modelled',
 'P04': 'every method of the by-value iterator against the double-ended queue contract, from every state',
 'P05': 'the chunk iterator against the double-ended queue contract, from every state',
 'P06': 'dynamic and type-level indexing and the unchecked accessors, their in-range addresses and frames; in-range dynamic indices do not panic and out-of-range ones never return; left to Kani: that out-of-range type-level indices do not type-check',
 'P07': 'new, generate, dimensions and From<Vector>; f, as a state machine with any step relation, is called on every index once, row by row, and no more',
 'P08': 'dynamic, four type-level forms and unchecked accessors with frames; in-range dynamic indices do not panic and out-of-range ones never return; left to Kani: that out-of-range type-level indices do not type-check',
 'P09': 'results of map, all and any, and their calls: the callback, as a state machine with any step relation, is called once per entry row by row, and all and any stop right after the first answer that settles them',
 'P10': 'transposed, transpose in place and their composition',
 'P11': 'every method of the five iterators against the double-ended queue contract, from every state',
 'P12': 'every operator impl of Vector, elementwise with operand order',
 'P13': 'every elementwise operator impl of Matrix and conjugate, entrywise with operand order',
 'P14': 'every product impl, as the ordered sum over the inner index, for any (also non-commutative) element multiplication',
 'P15': 'dot, cross, norm, normalized against their definitions',
 'P16': 'zero, one, identity, min/max values, default, is_zero for every shape; pow as the k-fold product given the trusted contract of num::pow; diag for every shape, its call of generate taken as the loop of the contract of generate',
 'P17': 'determinant for N = 1, 2, 3 and every N >= 4 equals the Laplace determinant (defined and shown multilinear, alternating and invariant under row operations in verus/algebra.rs), the cofactor equals the signed minor and does not return for indices out of range, for any element type whose own arithmetic is a commutative ring (N <= 3) or a field (N >= 4); that the conditions of the generic impls reduce to the field laws is proved for each N up to 32',
 'P18': 'Some(x): x is the two-sided inverse; None: no inverse exists, for N = 1, 2, 3 and every N >= 4 (Gauss-Jordan), for any element type whose own arithmetic is a field',
 'P19': 'sum, max, min, max_by, min_by of vectors and matrices under any total order; the vector reductions over the trusted contracts of Iterator::fold/max/min',
 'P20': 'clamped and clamp of vectors and matrices',
 'P21': 'PartialEq, Clone of vectors and matrices (derived impls as rustc expands them)',
 'P22': 'relative_eq, ulps_eq and the defaults',
 'P24': 'Debug of vectors and matrices of every shape: the text written is exactly the stated one, an error is returned only if a writer or an element reported one; over the trusted contracts of Formatter::write_str, write_fmt, debug_list and of Debug for slices and references',
 'P25': 'Display of matrices of every shape and with any entry texts: when no writer reports an error the text written is exactly the stated grid, and no arithmetic on widths overflows; over the trusted contracts of format!, Formatter::write_char and write_str, str::lines (an uninterpreted split into lines) and the width function (uninterpreted, 0 for the empty line, a machine length), and of iterator map/max/count/nth',
 'P23': 'the array type of every length has that many elements (33 impls); Min is the smaller of any two type-level numbers (3 impls), given the Compare of typenum; macros and aliases, and Min again at every pair up to 32, are evaluated completely by Kani',
}
PROOF = [k for k in VERUS if k != 'P23']
def p(scope, label, how, level='other', **kw):
    return dict(scope=scope, label=label, how=how, level=level, **kw)
PROPS = {
 'P01': p('all 33 lengths', V, 'construction, views and generate against the array they came from'),
 'P02': p('lengths 0..=32 (sampled in quick, all in thorough); sources with lying size hints; short sources of every length', V,
          'collect from an arbitrary iterator; must panic when short', release=['panics_']),
 'P03': p('vectors up to 5 elements (7 in thorough), matrices up to 2x2 (2x3); all operation orders up to a stated depth', 'bounded', 'a drop ledger over elements with identity', native=True,
          assumptions=['a panic inside a user callback, iterator, Clone or Drop while the library holds elements in manual storage leaks them: outside the statement, not modelled', 'that dropping an array, Vector, or IntoIter runs Drop exactly once per live element is the language rule, not proved']),
 'P04': p('lengths 0..4, 9, 32', V, 'double-ended queue contract from every reachable state'),
 'P05': p('chunkings of vectors up to 6 (32 in thorough)', V, 'double-ended queue contract over the chunks'),
 'P06': p('lengths 0..=32', V, 'dynamic and type-level indexing; must panic out of range; type-level indexing out of range must not type-check', release=['panics_']),
 'P07': p('shapes up to 5x5', M, 'construction, dimensions, conversion'),
 'P08': p('shapes up to 5x5', M, 'dynamic and type-level indexing', release=['panics_']),
 'P09': p('shapes up to 4x4', M, 'visiting order and results of map/all/any'),
 'P10': p('shapes up to 5x4', M, 'transposition'),
 'P11': p('shapes up to 4x3 and 1x5 (5x3 in thorough)', M, 'double-ended queue contract for the five iterators', release=['constructor']),
 'P12': p('lengths 0..=32 sampled', V, 'operators without algebraic laws, all operand forms'),
 'P13': p('shapes up to 4x4', M, 'operators without algebraic laws, all operand forms'),
 'P14': p('shapes up to 3x4', M, 'a non-commutative ring and integers modulo 16 against the definition'),
 'P15': p('lengths up to 8', V, 'definition over modular integers and a mock float with arbitrary sqrt and division'),
 'P16': p('shapes up to 4x4', M, 'definition of each special matrix; power by repeated product'),
 'P17': p('N up to 3 over GF(2), GF(3), GF(5) and modular integers; N up to 5 executed', M, 'Leibniz formula over finite fields', native=True),
 'P18': p('N up to 3 over GF(2), GF(3), GF(5); N = 4.. executed', M, 'both products with the result are the identity iff the determinant is not zero', native=True),
 'P19': p('lengths up to 9, shapes up to 4x4', M, 'reductions against the definition under arbitrary total orders'),
 'P20': p('lengths and shapes sampled', M, 'clamp against the definition'),
 'P21': p('lengths and shapes sampled', M, 'equality (irreflexive too) and clone'),
 'P22': p('shapes up to 3x3', M, 'entrywise definition with an element type that records its tolerances'),
 'P23': p('all 33 lengths, all pairs for Min, all aliases', 'complete', 'type-level facts; each decided by evaluation'),
 'P25': p('shapes without rows or without columns under Kani; 22 shapes up to 32x1 executed', 'bounded', 'a layout written independently, with hand-measured lines; a failing writer', 
          assumptions=['an element\'s Display impl returns Ok when writing to a String (format! panics otherwise) and writes the same text each time']),
 'P24': p('lengths up to 5, shapes up to 2x3; all shapes without entries listed are executed', 'bounded', 'Debug output into a fixed buffer', native=True),
}
for _k in PROOF: PROPS[_k]['level'] = 'proof'
for _k in VERUS: PROPS[_k]['verus_note'] = 'Verus, every shape and value: %s.' % VERUS[_k]
TECHNIQUE = 'contract-based deductive verification: Kani/CBMC contract harnesses on the real crate'
for _k in VERUS: PROPS[_k]['technique'] = 'contract-based deductive verification: Verus contracts on the mechanically extracted crate source; Kani/CBMC contract harnesses at named shapes for the rest'
NOT_APPLICABLE = {}
