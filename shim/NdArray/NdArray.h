#ifndef VERIF_SHIM_NDARRAY_H
#define VERIF_SHIM_NDARRAY_H
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
namespace Euclid {
namespace NdArray {
template <typename T> class NdArray {
public:
  using iterator       = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  NdArray(std::initializer_list<size_t> shape) : NdArray(std::vector<size_t>(shape)) {}
  explicit NdArray(std::vector<size_t> shape) : m_shape(std::move(shape)), m_data(total(m_shape)) {}
  NdArray(std::vector<size_t> shape, std::vector<T> data) : m_shape(std::move(shape)), m_data(std::move(data)) {
    if (total(m_shape) != m_data.size()) throw std::invalid_argument("Data size does not match the shape");
  }
  const std::vector<size_t>& shape() const { return m_shape; }
  size_t                     size() const { return m_data.size(); }
  NdArray&                   reshape(const std::vector<size_t>& s) {
    if (total(s) != m_data.size()) throw std::range_error("New shape does not match the number of contained elements");
    m_shape = s;
    return *this;
  }
  template <typename... D> T&       at(D... i) { return m_data.at(offset({static_cast<size_t>(i)...})); }
  template <typename... D> const T& at(D... i) const { return m_data.at(offset({static_cast<size_t>(i)...})); }
  T&                                at(const std::vector<size_t>& c) { return m_data.at(offset(c)); }
  const T&                          at(const std::vector<size_t>& c) const { return m_data.at(offset(c)); }
  iterator                          begin() { return m_data.begin(); }
  iterator                          end() { return m_data.end(); }
  const_iterator                    begin() const { return m_data.begin(); }
  const_iterator                    end() const { return m_data.end(); }
  bool operator==(const NdArray& o) const { return m_shape == o.m_shape && m_data == o.m_data; }
  bool operator!=(const NdArray& o) const { return !(*this == o); }

private:
  static size_t total(const std::vector<size_t>& s) {
    size_t n = 1;
    for (auto v : s) n *= v;
    return n;
  }
  size_t offset(const std::vector<size_t>& c) const {
    if (c.size() != m_shape.size()) throw std::out_of_range("Invalid number of coordinates");
    size_t o = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] >= m_shape[i]) throw std::out_of_range("Coordinate out of bounds");
      o = o * m_shape[i] + c[i];
    }
    return o;
  }
  std::vector<size_t> m_shape;
  std::vector<T>      m_data;
};
template <typename T> std::ostream& operator<<(std::ostream& o, const NdArray<T>& a) {
  o << "<";
  for (size_t i = 0; i < a.shape().size(); ++i) o << (i ? "," : "") << a.shape()[i];
  o << ">";
  size_t k = 0;
  for (const auto& v : a) o << (k++ ? "," : "") << v;
  return o;
}
}  // namespace NdArray
}  // namespace Euclid
#endif
