// Data arrays and datasets: drawn, and read into an independent form.
#pragma once
#include "var.h"

#include <map>

#include "scipp/dataset/dataset.h"

namespace dm {
using namespace vm;
using scipp::dataset::DataArray;
using scipp::dataset::Dataset;

/// Values without one draw each.
struct Gen {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  idx in(idx lo, idx hi) {
    return lo + static_cast<idx>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
};
Gen draw_gen();

/// One variable of a data array.
struct Col {
  Logical l;
  bool aligned = true;
  bool readonly = false;
};
using Cols = std::map<std::string, Col>;

/// Everything a data array holds.
struct Snap {
  std::string name;
  bool readonly = false;
  Col data;
  Cols coords, masks, attrs;
  bool meta_readonly[3] = {};
  bool events = false; // bins of a data array
  Cols ecoords, emasks, eattrs;
};

struct DsSnap {
  std::vector<std::pair<std::string, idx>> sizes; // sorted
  bool readonly = false;
  bool coords_readonly = false;
  Cols coords;
  std::map<std::string, Snap> items;
};

Col col(const Variable &v);
Snap snap(const DataArray &a);
Snap snap(const Variable &v); // as data of an array without meta data
DsSnap snap(const Dataset &d);

struct Cmp {
  double rtol = 0;
  bool name = true;
  bool flags = true; // read-only and alignment flags
  bool readonly = true;
  bool order = true; // order of dimensions
};
/// Empty if equal, otherwise what differs.
std::string differs(const Col &got, const Col &want, const Cmp &c = {});
std::string differs(const Snap &got, const Snap &want, const Cmp &c = {});
std::string differs(const DsSnap &got, const DsSnap &want, const Cmp &c = {});
void observe(const Snap &s);
void observe(const DsSnap &s);

/// Bins of a data array with the given event coordinates.
struct EvOpts {
  idx max_bin = 4;
  DType dtype = scipp::core::dtype<double>;
  Unit unit = scipp::units::one;
  bool variances = false;
  bool mask = false;
  bool attr = false;
  bool gaps = true;
  struct C {
    Dim dim;
    DType dtype;
    std::function<double(Gen &)> value;
  };
  std::vector<C> coords;
  std::function<double(Gen &)> value; // weights
};
Variable events(const Ext &s, const EvOpts &o);
/// Table of events, without bins.
DataArray table(idx n, const EvOpts &o);

struct DaOpts {
  int kind = -1; // 0 dense, 1 bins of a variable, 2 bins of a data array
  DType dtype = scipp::core::dtype<double>;
  Unit unit = scipp::units::one;
  bool variances = false;
  bool odd_masks = false; // also masks that cannot be combined
};
using CoordMap = std::vector<std::pair<Dim, Variable>>;
using MaskMap = std::vector<std::pair<std::string, Variable>>;
/// Dimension coords, bin edges, 0-D and multi-dimensional ones.
CoordMap draw_coords(const Ext &s, bool edges = true);
MaskMap draw_masks(const Ext &s, int max, bool odd = false);
Variable draw_data(const Ext &s, const DaOpts &o);
DataArray assemble(Variable data, const CoordMap &c, const MaskMap &m,
                   const CoordMap &attrs, const std::string &name);

/// Contiguous variable with generated values.
Variable column(const Ext &s, DType t, Unit u, Gen &g,
                const std::function<double(Gen &)> &value,
                bool variances = false);
} // namespace dm
