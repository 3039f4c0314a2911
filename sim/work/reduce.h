// What reductions are expected to do.
#pragma once
#include "var.h"

#include <algorithm>
#include <limits>

namespace vm {
using scipp::core::dtype;

enum Op { Sum, NanSum, Max, Min, NanMax, NanMin, All, Any, Mean, NanMean, NOp };
inline const char *const op_names[] = {"sum",    "nansum", "max",  "min",    "nanmax",
                                "nanmin", "all",    "any", "mean", "nanmean"};


inline bool is_fp(const DType t) { return t == dtype<double> || t == dtype<float>; }

/// What a reduction does to the elements that belong to one output element.
struct Reducer {
  Op op;
  DType dt;
  Elem r;
  double n = 0;
  bool seen_nan = false;

  Reducer(const Op o, const DType t) : op(o), dt(t) {
    const auto lim = [&](const bool high) {
      return by_dtype(t, [&](auto x) {
        using L = std::numeric_limits<decltype(x)>;
        return static_cast<double>(high ? L::max() : L::lowest());
      });
    };
    if (op == Max || op == NanMax)
      r.v = lim(false);
    else if (op == Min || op == NanMin)
      r.v = lim(true);
    else if (op == All)
      r.v = 1;
  }
  void start(const Elem &e) { r = e; }
  void add(const Elem &e) {
    const bool nan = std::isnan(e.v);
    switch (op) {
    case NanSum:
    case NanMean:
      if (nan)
        return;
      [[fallthrough]];
    case Sum:
    case Mean:
      ++n;
      r.v += e.v;
      r.var += e.var;
      return;
    case All:
      r.v = r.v && e.v;
      return;
    case Any:
      r.v = r.v || e.v;
      return;
    case Max:
    case Min:
      if (nan)
        r.v = NAN;
      if (!std::isnan(r.v))
        r.v = op == Max ? std::max(r.v, e.v) : std::min(r.v, e.v);
      return;
    default: // a NaN in place of the start value is replaced by any element
      if (!nan)
        r.v = std::isnan(r.v) ? e.v
              : op == NanMax  ? std::max(r.v, e.v)
                              : std::min(r.v, e.v);
    }
  }
  Elem done() const {
    if (op == Sum || op == NanSum) // of floats: rounded at the end only
      return dt == dtype<float> ? Elem{static_cast<float>(r.v),
                                       static_cast<float>(r.var)}
                                : r;
    if (op != Mean && op != NanMean)
      return r;
    const double f = 1.0 / n;
    return {r.v * f, r.var * f * f};
  }
};

inline DType result_type(const Op op, const DType t) {
  if ((op == Sum || op == NanSum) && t == dtype<bool>)
    return dtype<int64_t>;
  if ((op == Mean || op == NanMean) && t != dtype<float>)
    return dtype<double>;
  return t;
}

inline double tolerance(const Op op, const DType t) {
  return op != Mean && op != NanMean ? 0 : t == dtype<float> ? 2e-6 : 1e-13;
}

} // namespace vm
