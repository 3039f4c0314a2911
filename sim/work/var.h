// Variables of any memory layout together with an independent logical model.
#pragma once
#include "../rt/runner.h"

#include <cmath>
#include <functional>
#include <string>
#include <vector>

#include "scipp/core/dtype.h"
#include "scipp/variable/variable.h"

namespace vm {
using idx = scipp::index;
using scipp::core::DType;
using scipp::units::Dim;
using scipp::units::Unit;
using scipp::variable::Variable;

struct Elem {
  double v = 0;
  double var = 0;
};

/// Contents of a variable, by position in row-major order of its dimensions. A
/// cell of dense data holds one element, a cell of binned data any number.
struct Logical {
  std::vector<Dim> labels;
  std::vector<idx> shape;
  bool binned = false;
  bool has_var = false;
  DType dtype = scipp::core::dtype<double>;
  Unit unit = scipp::units::one;
  std::vector<std::vector<Elem>> cells;

  idx volume() const {
    idx n = 1;
    for (const auto s : shape)
      n *= s;
    return n;
  }
  int find(const Dim d) const {
    for (size_t i = 0; i < labels.size(); ++i)
      if (labels[i] == d)
        return static_cast<int>(i);
    return -1;
  }
  idx size(const Dim d) const { return shape[find(d)]; }
  scipp::core::Dimensions dims() const {
    return {scipp::span<const Dim>(labels.data(), labels.size()),
            scipp::span<const idx>(shape.data(), shape.size())};
  }
  /// Flat cell idx of the element seen at `coord` of dimensions `in`.
  idx at(const Logical &in, const std::vector<idx> &coord) const {
    idx k = 0;
    for (size_t i = 0; i < labels.size(); ++i)
      k = k * shape[i] + coord[in.find(labels[i])];
    return k;
  }
  void resize_cells() {
    cells.assign(volume(), std::vector<Elem>(binned ? 0 : 1));
  }
  std::string str() const;
};

/// Call f(coord, flat idx) for every cell.
template <class F> void each(const Logical &l, F &&f) {
  const idx n = l.volume();
  std::vector<idx> c(l.shape.size(), 0);
  for (idx k = 0; k < n; ++k) {
    f(c, k);
    for (int d = static_cast<int>(c.size()) - 1; d >= 0; --d) {
      if (++c[d] < l.shape[d])
        break;
      c[d] = 0;
    }
  }
}

/// The whole memory behind a variable, to see what an operation writes.
struct Memory {
  Variable root; // contiguous
  std::vector<Elem> before;
  std::vector<uint8_t> owned; // elements that belong to the variable
  Unit unit = scipp::units::one;
};

struct Ext {
  std::vector<Dim> labels;
  std::vector<idx> shape;
};

struct Operand {
  Variable var;
  Logical l;
  std::vector<Memory> mem;
  std::vector<idx> bin_sizes; // per cell, in events
  Ext inner;                  // buffer dimensions, extent of bin dim is 0
};

struct Opts {
  DType dtype = scipp::core::dtype<double>;
  Unit unit = scipp::units::one;
  bool variances = false;
  bool plain = false;    // contiguous
  bool no_view = false;  // no slice, so that the unit can change
  int lo = -9, hi = 9;   // integer values
  int nan_one_in = 0;    // floating-point only
  std::function<double()> value;  // overrides lo, hi
  std::function<double()> gen;    // same, without a draw for each element
};

const Dim dim_of(int i);
Ext draw_shape(int max_ndim, idx max_volume, bool zero, int first = 0);
/// Subset of dimensions in another order, for broadcasting.
Ext draw_subset(const Ext &s, bool all = false);
void shuffle(Ext &s);

/// Fresh values for the cells of `l`.
void draw_values(Logical &l, const Opts &o);
/// Memory layout of dense data drawn at random.
Operand dense(const Ext &s, const Opts &o);
Operand dense(const Logical &l, const Opts &o);
/// Bins of random sizes over a buffer with gaps. If `like` is given then the
/// bin sizes and event shape match that operand (by label).
struct BinOpts {
  int max_size = 4;
  int extra_dims = 6; // one in: buffer of several dimensions
  bool buffer_view = true;
  bool permute = false; // buffer dimensions in another order than in `like`
};
Operand binned(const Ext &s, const Opts &o, const BinOpts &b = {},
               const Operand *like = nullptr);

/// Contents of any variable of supported type, read through raw memory.
Logical read(const Variable &var);
/// Compares contents. `rtol` relative tolerance.
void expect_same(const Logical &got, const Logical &want, const char *what,
                 double rtol = 0, bool check_unit = true);
/// Nothing but (if allowed) the elements of the variable have changed.
void expect_untouched(const Operand &o, bool owned_may_change,
                      const char *what, bool unit_may_change = false);
void observe(const Logical &l);
bool close(double a, double b, double rtol);

template <class F> decltype(auto) by_dtype(const DType t, F &&f) {
  using scipp::core::dtype;
  if (t == dtype<double>)
    return f(double{});
  if (t == dtype<float>)
    return f(float{});
  if (t == dtype<int64_t>)
    return f(int64_t{});
  if (t == dtype<int32_t>)
    return f(int32_t{});
  if (t == dtype<bool>)
    return f(bool{});
  sim::violation("harness", "dtype not supported");
}
std::string name_of(DType t);
} // namespace vm
