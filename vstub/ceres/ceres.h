// Verification stand-in for Ceres: the problem is a log of residual blocks and a
// set of constant parameter blocks (ghost state kept by the verifier).
#ifndef VSTUB_CERES_
#define VSTUB_CERES_
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Core>
namespace ceres
{
using std::cos; using std::sin; using std::floor; using std::sqrt; using std::atan2; using std::abs; using std::fabs;
enum LinearSolverType { DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR };
struct CostFunction
{
  const void * functor_;
  explicit CostFunction(const void * f) noexcept : functor_(f) {}
  virtual ~CostFunction() {}
  virtual bool Evaluate(double const * const * p, double * r, double ** j) const { (void)p; (void)r; (void)j; return true; }
};
template <class F, int R, int N0, int N1, int N2, int N3, int N4, int N5> struct AutoDiffCostFunction : CostFunction
{
  const F * f_;
  explicit AutoDiffCostFunction(F * f) noexcept : CostFunction(f), f_(f) {}
  bool Evaluate(double const * const * p, double * r, double **) const override
  { return (*f_)(p[0], p[1], p[2], p[3], p[4], p[5], r); }
};
struct LossFunction {};
struct HuberLoss : LossFunction { explicit HuberLoss(double) noexcept {} };
struct CauchyLoss : LossFunction { explicit CauchyLoss(double) noexcept {} };
struct ResidualBlock {};
using ResidualBlockId = ResidualBlock *;
struct Problem
{
  Problem() noexcept { __init(); }
  void __init() noexcept;
  ResidualBlockId __add(const CostFunction * c, LossFunction * l, double * a, double * b, double * d,
                        double * e, double * f, double * g) noexcept;
  template <class... A> ResidualBlockId AddResidualBlock(CostFunction * c, LossFunction * l, A... a) noexcept
  { return __add(c, l, a...); }
  void SetParameterBlockConstant(const double * p) noexcept;      // checked: p is a parameter block
  void SetParameterBlockVariable(double * p) noexcept;
  void AddParameterBlock(double * p, int n) noexcept;
  bool HasParameterBlock(const double * p) const noexcept;
  bool IsParameterBlockConstant(const double * p) const noexcept;
  int NumResidualBlocks() const noexcept;
  int NumParameterBlocks() const noexcept;
  unsigned long n_;
};
struct Solver
{
  struct Options { int max_num_iterations = 50; LinearSolverType linear_solver_type = SPARSE_NORMAL_CHOLESKY; bool minimizer_progress_to_stdout = false; int num_threads = 1; double function_tolerance = 1e-6; };
  struct Summary
  {
    bool usable_;
    Summary() noexcept : usable_(false) {}
    bool IsSolutionUsable() const noexcept { return usable_; }
    std::string FullReport() const noexcept { return std::string(); }
    std::string BriefReport() const noexcept { return std::string(); }
  };
};
bool __verif_solve(const Solver::Options & o, Problem * p) noexcept;   // changes the non-constant parameters
inline void Solve(const Solver::Options & o, Problem * p, Solver::Summary * s) noexcept { s->usable_ = __verif_solve(o, p); }
}
#endif
