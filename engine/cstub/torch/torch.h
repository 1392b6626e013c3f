// Declarations (no definitions) of the part of the ATen interface the kernels use: what the C++ engine needs to have
// clang resolve names and types in the real source files. The engine gives these their meaning.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <valarray>
#include <vector>

namespace c10 {
enum class ScalarType : int8_t { Byte, Char, Short, Int, Long, Half, Float, Double, ComplexHalf, ComplexFloat, ComplexDouble, Bool, BFloat16 };
struct Scalar { template <class T> Scalar(T); };
struct IntArrayRef { IntArrayRef(std::initializer_list<int64_t>); IntArrayRef(int64_t); template <class T> IntArrayRef(const std::vector<T>&); int64_t operator[](size_t) const; size_t size() const; };
struct TensorOptions { TensorOptions(); };
struct Device {};
}
namespace at {
using ScalarType = c10::ScalarType;
using IntArrayRef = c10::IntArrayRef;
using Scalar = c10::Scalar;
using TensorOptions = c10::TensorOptions;
constexpr ScalarType kByte = ScalarType::Byte, kChar = ScalarType::Char, kShort = ScalarType::Short, kInt = ScalarType::Int, kLong = ScalarType::Long, kHalf = ScalarType::Half,
                     kFloat = ScalarType::Float, kDouble = ScalarType::Double, kBFloat16 = ScalarType::BFloat16, kComplexHalf = ScalarType::ComplexHalf,
                     kComplexFloat = ScalarType::ComplexFloat, kComplexDouble = ScalarType::ComplexDouble, kBool = ScalarType::Bool;
struct Tensor {
    Tensor();
    int64_t size(int64_t) const;
    int64_t dim() const;
    int64_t ndimension() const;
    int64_t numel() const;
    int64_t stride(int64_t) const;
    bool is_contiguous() const;
    bool is_complex() const;
    bool defined() const;
    IntArrayRef sizes() const;
    IntArrayRef strides() const;
    ScalarType scalar_type() const;
    ScalarType dtype() const;
    TensorOptions options() const;
    c10::Device device() const;
    Tensor contiguous() const;
    Tensor clone() const;
    Tensor conj() const;
    Tensor conj_physical() const;
    Tensor resolve_conj() const;
    Tensor detach() const;
    Tensor t() const;
    Tensor mT() const;
    Tensor unsqueeze(int64_t) const;
    Tensor squeeze(int64_t) const;
    Tensor squeeze() const;
    Tensor slice(int64_t dim, int64_t start, int64_t end, int64_t step = 1) const;
    Tensor narrow(int64_t dim, int64_t start, int64_t length) const;
    Tensor select(int64_t dim, int64_t index) const;
    Tensor transpose(int64_t, int64_t) const;
    Tensor permute(IntArrayRef) const;
    Tensor reshape(IntArrayRef) const;
    Tensor view(IntArrayRef) const;
    Tensor expand(IntArrayRef) const;
    Tensor flip(IntArrayRef) const;
    Tensor flatten(int64_t = 0, int64_t = -1) const;
    Tensor to(ScalarType) const;
    Tensor mul(const Tensor &) const;
    Tensor add(const Tensor &) const;
    Tensor &copy_(const Tensor &) const;
    template <class T> T item() const;
    template <class T> const T *const_data_ptr() const;
    template <class T> T *mutable_data_ptr() const;
    template <class T> T *data_ptr() const;
};
struct TensorList { TensorList(std::initializer_list<Tensor>); TensorList(const std::vector<Tensor> &); };
Tensor cat(TensorList, int64_t dim = 0);
Tensor stack(TensorList, int64_t dim = 0);
Tensor pad(const Tensor &, IntArrayRef);
Tensor constant_pad_nd(const Tensor &, IntArrayRef);
Tensor empty_like(const Tensor &);
Tensor zeros_like(const Tensor &);
Tensor empty(IntArrayRef, TensorOptions);
Tensor zeros(IntArrayRef, TensorOptions);
Tensor operator+(const Tensor &, const Tensor &);
Tensor operator-(const Tensor &, const Tensor &);
Tensor operator*(const Tensor &, const Tensor &);
template <class F> void parallel_for(int64_t, int64_t, int64_t, const F &);
namespace internal { constexpr int64_t GRAIN_SIZE = 32768; }
int get_num_threads();
}
namespace torch { using namespace at; using at::Tensor;
struct Library { template <class F> void impl(const char *, F); void def(const char *, std::initializer_list<int>); void def(const char *); }; }
namespace at { namespace Tag { constexpr int pt2_compliant_tag = 0; } }

bool verif_check(bool);
void verif_dispatch_complex(at::ScalarType);
void verif_dispatch_floating(at::ScalarType);
#define TORCH_CHECK(cond, ...) verif_check((cond))
#define TORCH_INTERNAL_ASSERT(cond, ...) verif_check((cond))
#define TORCH_CHECK_VALUE(cond, ...) verif_check((cond))
#define TORCH_CHECK_EQ(a, b) verif_check((a) == (b))
#define TORCH_CHECK_GE(a, b) verif_check((a) >= (b))
#define TORCH_CHECK_GT(a, b) verif_check((a) > (b))
#define TORCH_CHECK_LE(a, b) verif_check((a) <= (b))
#define TORCH_CHECK_LT(a, b) verif_check((a) < (b))
#define VERIF_DC(T, ...) { using scalar_t = double; verif_dispatch_complex(T); (__VA_ARGS__)(); }
#define VERIF_DF(T, ...) { using scalar_t = double; verif_dispatch_floating(T); (__VA_ARGS__)(); }
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES(T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND(A, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND1(A, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND2(A, B, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND3(A, B, C, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND4(A, B, C, D, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_ALL_TYPES_AND_COMPLEX(T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_ALL_TYPES_AND_COMPLEX_AND2(A, B, T, N, ...) VERIF_DC(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_TYPES(T, N, ...) VERIF_DF(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_TYPES_AND(A, T, N, ...) VERIF_DF(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_TYPES_AND2(A, B, T, N, ...) VERIF_DF(T, __VA_ARGS__)
#define AT_DISPATCH_FLOATING_TYPES_AND_HALF(T, N, ...) VERIF_DF(T, __VA_ARGS__)
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define TORCH_LIBRARY_IMPL(ns, key, m) void VERIF_CAT(verif_lib_##ns##_##key##_, __COUNTER__)(torch::Library &m)
#define TORCH_LIBRARY(ns, m) void VERIF_CAT(verif_def_##ns##_, __COUNTER__)(torch::Library &m)
#define TORCH_LIBRARY_FRAGMENT(ns, m) void VERIF_CAT(verif_def_##ns##_, __COUNTER__)(torch::Library &m)
