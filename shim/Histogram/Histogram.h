// Stand-in for Alexandria's Histogram. The statistics follow the SExtractor definitions; SEImplementation's own
// KappaSigmaBinning_test expectations are what it was checked against.
#ifndef VERIF_SHIM_HISTOGRAM_H
#define VERIF_SHIM_HISTOGRAM_H
#include <cassert>
#include <cmath>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <sys/types.h>
#include <tuple>
#include <utility>
#include <vector>
namespace Euclid {
namespace Histogram {
template <typename VarType> class BinStrategy {
public:
  virtual ~BinStrategy() = default;
  virtual ssize_t getBinIndex(VarType value) const = 0;
  virtual std::pair<VarType, VarType> getBinEdges(size_t i) const { return {getEdge(i), getEdge(i + 1)}; }
  virtual VarType getEdge(size_t e) const = 0;
  virtual VarType getBin(size_t i) const {
    auto e = getBinEdges(i);
    return (e.first + e.second) / 2;
  }
  size_t               getBinCount() const { return m_nbins; }
  std::vector<VarType> getEdges() const {
    std::vector<VarType> e(m_nbins + 1);
    for (size_t i = 0; i <= m_nbins; ++i) e[i] = getEdge(i);
    return e;
  }

protected:
  size_t m_nbins = 0;
};
template <typename VarType, typename CountType = float> class Histogram {
public:
  template <typename It, typename B> Histogram(It begin, It end, B&& binning) {
    binning.computeBins(begin, end);
    using BT = typename std::decay<B>::type;
    m_bins.reset(new BT(std::forward<B>(binning)));
    m_counts.assign(m_bins->getBinCount(), CountType(0));
    for (It i = begin; i != end; ++i) {
      ssize_t b = m_bins->getBinIndex(*i);
      if (b >= 0 && b < static_cast<ssize_t>(m_counts.size())) m_counts[b] += 1;
    }
    m_lo = 0;
    m_hi = static_cast<ssize_t>(m_counts.size()) - 1;
  }
  size_t                      size() const { return m_counts.size(); }
  std::vector<CountType>      getCounts() const { return {m_counts.begin() + m_lo, m_counts.begin() + m_hi + 1}; }
  std::vector<VarType>        getBins() const { std::vector<VarType> v; for (ssize_t i = m_lo; i <= m_hi; ++i) v.push_back(m_bins->getBin(i)); return v; }
  std::vector<VarType>        getEdges() const { std::vector<VarType> v; for (ssize_t i = m_lo; i <= m_hi + 1; ++i) v.push_back(m_bins->getEdge(i)); return v; }
  std::pair<VarType, VarType> getBinEdges(size_t i) const { return m_bins->getBinEdges(i + m_lo); }
  void clip(VarType min, VarType max) {
    if (min > max) throw std::invalid_argument("Histogram: bad clip");
    ssize_t lo = m_bins->getBinIndex(min), hi = m_bins->getBinIndex(max);
    m_lo = lo < 0 ? 0 : (lo > static_cast<ssize_t>(m_counts.size()) - 1 ? static_cast<ssize_t>(m_counts.size()) - 1 : lo);
    m_hi = hi < m_lo ? m_lo : (hi > static_cast<ssize_t>(m_counts.size()) - 1 ? static_cast<ssize_t>(m_counts.size()) - 1 : hi);
  }
  std::tuple<VarType, VarType, VarType> getStats() const {
    VarType total = 0, mean = 0, sigma = 0;
    VarType lowsum = 0, highsum = 0;
    ssize_t l = m_lo, h = m_hi;
    for (ssize_t i = m_lo; i <= m_hi; ++i) {
      if (lowsum < highsum) lowsum += m_counts[l++]; else highsum += m_counts[h--];
      VarType v = m_bins->getBin(i);
      total += m_counts[i]; mean += m_counts[i] * v; sigma += m_counts[i] * v * v;
    }
    if (total <= 0) return std::make_tuple(VarType(0), VarType(0), VarType(0));
    mean /= total;
    sigma = sigma / total - mean * mean;
    sigma = sigma > 0 ? std::sqrt(sigma) : 0;
    VarType median = m_bins->getBin(m_lo);
    if (h >= m_lo) {
      auto e = m_bins->getBinEdges(h);
      VarType w = e.second - e.first, cl = l < static_cast<ssize_t>(m_counts.size()) ? m_counts[l] : 0, ch = m_counts[h];
      VarType c = cl > ch ? cl : ch;
      median = e.second + (c > 0 ? (highsum - lowsum) / (2 * c) * w : 0);
    }
    return std::make_tuple(mean, median, sigma);
  }

private:
  std::unique_ptr<BinStrategy<VarType>> m_bins;
  std::vector<CountType>                m_counts;
  ssize_t                               m_lo = 0, m_hi = 0;
};
}  // namespace Histogram
}  // namespace Euclid
#endif
