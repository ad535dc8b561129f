// Stand-in for the cppflow (TensorFlow) wrapper, which is not installed here: the model returns whatever
// the harness puts into cppflow::next_output.
#ifndef STUB_CPPFLOW_H_
#define STUB_CPPFLOW_H_
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace cppflow {
class tensor {
 public:
  std::vector<float> f; std::vector<int> i; std::vector<int64_t> l, dims;
  tensor() {}
  tensor(const std::vector<float>& v, const std::vector<int64_t>& d) : f(v), dims(d) {}
  tensor(const std::vector<int>& v, const std::vector<int64_t>& d) : i(v), dims(d) {}
  tensor shape() const { tensor t; t.l = dims; return t; }
  template <class T> std::vector<T> get_data() const;
};
template <> inline std::vector<float> tensor::get_data<float>() const { return f; }
template <> inline std::vector<int> tensor::get_data<int>() const { return i; }
template <> inline std::vector<int64_t> tensor::get_data<int64_t>() const { return l; }
extern tensor next_output, last_layout, last_words;
class model {
 public:
  explicit model(const std::string&) {}
  std::vector<tensor> operator()(const std::vector<std::tuple<std::string, tensor>>& in, const std::vector<std::string>&) { for (auto& t : in) { if (!std::get<1>(t).f.empty()) last_layout = std::get<1>(t); else last_words = std::get<1>(t); } return {next_output}; }
};
}
#endif
