// C15: a reference model of the structure of data arrays.
#pragma once
#include "data.h"

#include <optional>

#include "scipp/dataset/dataset.h"

namespace st {
using namespace dm;
using P = std::vector<idx>;
namespace core = scipp::core;
namespace units = scipp::units;
namespace variable = scipp::variable;
namespace dataset = scipp::dataset;
using core::dtype;

/// What the model says about an operation that cannot work.
struct Reject {
  std::string why;
};
/// The model says nothing about the outcome.
struct Unclear {};

idx flat(const Logical &l, const P &c);
/// Cells of `src` arranged in the given shape, f(coord) is the flat idx.
Logical gather(const Logical &src, const Ext &e,
               const std::function<idx(const P &)> &f);
Ext ext(const Logical &l);

Logical point(const Logical &l, Dim d, idx i);
Logical range(const Logical &l, Dim d, idx begin, idx end, idx stride = 1);
Logical permute(const Logical &l, const std::vector<Dim> &order);
/// Broadcast and transpose.
Logical spread(const Logical &l, const Ext &e);
Logical rename(const Logical &l, const std::map<Dim, Dim> &names);
Logical fold(const Logical &l, Dim d, const Ext &to);
Logical flatten(const Logical &l, const std::vector<Dim> &from, Dim to);
Logical join(const std::vector<Logical> &ls, Dim d);
bool same(const Logical &a, const Logical &b); // as operator==, NaN equal

/// One more than the data in this dimension, otherwise like the data.
bool is_edges(const Logical &data, const Logical &v, Dim d);
/// The dimension a coord belongs to.
Dim dim_of_coord(const Logical &data, const std::string &key, const Logical &v,
                 bool named_by_dim = true);

/// Apply f to data, coords, masks, attrs and event data with the same shape as
/// the data. f(col, kind, key), kind: 0 data, 1 coord, 2 mask, 3 attr.
Snap map_all(const Snap &a,
             const std::function<std::optional<Col>(const Col &, int,
                                                    const std::string &)> &f);
bool mentions(const Snap &a, Dim d); // in coords, masks, attrs

Snap point(const Snap &a, Dim d, idx i);
Snap range(const Snap &a, Dim d, idx begin, idx end, idx stride = 1);

struct ArrayOpts {
  int max_ndim = 3;
  idx max_volume = 48;
  bool zero = true;
  int kind = -1; // 0 dense, 1 bins of a variable, 2 bins of a data array
  DType dtype = core::dtype<double>;
  bool edges = true;
  int chain_one_in = 2; // edges that continue in the next row
};
/// Data array of drawn layout with all kinds of coords, masks and attrs.
DataArray draw_array(const ArrayOpts &o, const Ext *shape = nullptr);

/// Compare, ignoring read-only flags.
void expect(const DataArray &got, const Snap &want, const std::string &what,
            bool name = true, bool order = true, bool aligned = true);

/// Run an operation that makes something new from operands that must not
/// change: after an attempt without memory, and by several threads at once.
/// Empty if it was done, otherwise the error.
std::string perform(const std::string &what,
                    const std::vector<const DataArray *> &operands,
                    const std::function<DataArray()> &op, DataArray &out);
} // namespace st
