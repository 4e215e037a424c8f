// Instantiates the templates of the sparse drivers which the library itself
// does not instantiate; parsed for its syntax tree only, never built.
#include <adolc/adolc.h>
#include <adolc/sparse/sparsedrivers.h>

namespace ADOLC::Sparse {
using S = SparseMethod;
using C = CompressionMode;
using F = ControlFlowMode;
using B = BitPatternPropagationDirection;
using M = MemoryHandler;
#define ONE(s, c, f, b, h)                                                     \
  template int sparse_jac<S::s, C::c, F::f, B::b, M::h>(                       \
      short, int, int, int, const double *, SparseMatrix &);
#define TWO(s, c, f, b) ONE(s, c, f, b, Auto) ONE(s, c, f, b, Manual)
#define ROWCOL(s, f, b) TWO(s, Row, f, b) TWO(s, Column, f, b)
ROWCOL(IndexDomains, Safe, Auto)
ROWCOL(IndexDomains, Tight, Auto)
ROWCOL(BitPattern, Safe, Auto)
ROWCOL(BitPattern, Safe, Forward)
ROWCOL(BitPattern, Safe, Reverse)
ROWCOL(BitPattern, Tight, Auto)
ROWCOL(BitPattern, Tight, Forward)
ROWCOL(BitPattern, Tight, Reverse)
template int sparse_jac<PiecewiseLinear{}, M::Auto>(short, int, int, int, int,
                                                    const double *,
                                                    SparseANF &);
template int sparse_jac<PiecewiseLinear{}, M::Manual>(short, int, int, int, int,
                                                      const double *,
                                                      SparseANF &);
#define HESS(f, r)                                                             \
  template int sparse_hess<F::f, RecoveryMethod::r>(                           \
      short, int, int, const double *, int *, unsigned int **,                 \
      unsigned int **, double **);
HESS(Safe, Direct)
HESS(Safe, Indirect)
HESS(Tight, Direct)
HESS(Tight, Indirect)
HESS(OldSafe, Direct)
HESS(OldSafe, Indirect)
HESS(OldTight, Direct)
HESS(OldTight, Indirect)
} // namespace ADOLC::Sparse
