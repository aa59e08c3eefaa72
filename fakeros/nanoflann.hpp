// nanoflann with the interface the package uses (pre-1.5), searching every point
#ifndef FAKE_NANOFLANN_
#define FAKE_NANOFLANN_
#include <algorithm>
#include <cstddef>
#include <utility>
#include <vector>
namespace nanoflann
{
struct KDTreeSingleIndexAdaptorParams { size_t leaf_max_size; KDTreeSingleIndexAdaptorParams(size_t n = 10) : leaf_max_size(n) {} };
struct SearchParams { SearchParams(int = 32, float = 0, bool s = true) : sorted(s) {} bool sorted; };
using SearchParameters = SearchParams;
template <class T, class A> struct L2_Simple_Adaptor { static constexpr int p = 2; };
template <class T, class A> struct L2_Adaptor { static constexpr int p = 2; };
template <class T, class A> struct L1_Adaptor { static constexpr int p = 1; };
template <class D, class A, int N, class I = unsigned> struct KDTreeSingleIndexAdaptor
{
  const A & a_; size_t n_;
  std::vector<std::vector<double>> xs_;
  KDTreeSingleIndexAdaptor(int, const A & a, const KDTreeSingleIndexAdaptorParams & = KDTreeSingleIndexAdaptorParams()) : a_(a), n_(0) {}
  void buildIndex() { xs_.clear(); n_ = a_.kdtree_get_point_count(); for (size_t i = 0; i < n_; ++i) { xs_.emplace_back(); for (int d = 0; d < N; ++d) xs_.back().push_back(a_.kdtree_get_pt(i, d)); } }
  template <class P> size_t radiusSearch(const double * q, double r2, std::vector<P> & out, const SearchParams & p) const
  {
    out.clear();
    for (size_t i = 0; i < n_; ++i)
    {
      double s = 0;
      for (int d = 0; d < N; ++d) { const double e = xs_[i][d] - q[d]; s += D::p == 2 ? e * e : (e < 0 ? -e : e); }
      if (s < r2) out.emplace_back(i, s);
    }
    if (p.sorted) std::sort(out.begin(), out.end(), [](const P & x, const P & y) { return x.second < y.second; });
    return out.size();
  }
};
}
#endif
