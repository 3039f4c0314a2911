// Operations that return something new, over a set of shared operands.
#pragma once
#include "data.h"

#include <memory>
#include <variant>

namespace ops {
using namespace dm;
using scipp::Variable;
using scipp::dataset::DataArray;
using scipp::dataset::Dataset;

using Out =
    std::variant<std::monostate, std::string, Variable, DataArray, Dataset>;

/// Operands. Copying shares the data.
struct World {
  Ext s;
  Dim dim; // one of the dimensions, with a sorted coord
  Variable a, b, ints, flags, key, text, time, bv, bw, be, edges, groups, one,
      vectors, fine;
  DataArray da, db, de, tab, hist, counts;
  Dataset ds;
};
World draw_world(bool large);

struct WorldSnap {
  std::vector<Snap> v;
  DsSnap ds;
};
WorldSnap snap(const World &w);
std::string differs(const WorldSnap &got, const WorldSnap &want);

struct Case {
  std::string name;
  std::function<Out()> run;
};
struct Op {
  const char *name;
  Out (*run)(const World &);
};
const std::vector<Op> &catalogue();
Case draw_case(std::shared_ptr<const World> w);

/// Contents, independent of the objects.
struct Picture {
  size_t kind = 0;
  std::string text;
  Snap array;
  DsSnap dataset;
};
Picture picture(const Out &o);
std::string differs(const Picture &got, const Picture &want);
void observe(const Picture &p);

/// Also turns an exception into a result.
Out outcome(const Case &c);
} // namespace ops
