// Verification stand-in for nanoflann (search contract assumed by the verifier)
#ifndef VSTUB_NANOFLANN_
#define VSTUB_NANOFLANN_
#include <cstddef>
#include <utility>
#include <vector>
namespace nanoflann
{
struct KDTreeSingleIndexAdaptorParams { size_t leaf_max_size; KDTreeSingleIndexAdaptorParams(size_t n = 10) noexcept : leaf_max_size(n) {} };
struct SearchParams { SearchParams(int = 32, float = 0, bool s = true) noexcept : sorted(s) {} bool sorted; };
using SearchParameters = SearchParams;
template <class I, class D> struct ResultItem { I first; D second; };
template <class T, class A> struct L2_Simple_Adaptor {};
template <class T, class A> struct L2_Adaptor {};
template <class T, class A> struct L1_Adaptor {};
// Sets out to, for exactly the i in [0, n) with xs[i], ys[i] at distance < r2 in the metric's
// own measure (L2: squared distance) from (qx, qy), one pair (i, squared distance), sorted by distance.
template <class D, class P> void __verif_search(const std::vector<double> & xs, const std::vector<double> & ys,
                                       const double * q, double r2, bool sorted, std::vector<P> & out) noexcept;
template <class D, class A, int N, class I = unsigned> struct KDTreeSingleIndexAdaptor
{
  const A & a_;
  std::vector<double> xs_, ys_;
  KDTreeSingleIndexAdaptor(int, const A & a, const KDTreeSingleIndexAdaptorParams & = KDTreeSingleIndexAdaptorParams()) noexcept : a_(a) {}
  KDTreeSingleIndexAdaptor(int, const A & a, size_t) noexcept : a_(a) {}
  void buildIndex() noexcept
  {
    const size_t n = a_.kdtree_get_point_count();
    xs_.clear();
    ys_.clear();
    for (size_t i = 0; i < n; ++i)
    {
      xs_.push_back(a_.kdtree_get_pt(i, 0));
      ys_.push_back(a_.kdtree_get_pt(i, 1));
    }
  }
  template <class P> size_t radiusSearch(const double * q, double r2, std::vector<P> & out, const SearchParams & p) const noexcept
  { out.clear(); __verif_search<D>(xs_, ys_, q, r2, p.sorted, out); return out.size(); }
};
}
#endif
