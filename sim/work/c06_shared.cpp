// C06: shared objects read by several threads.
#include "ops.h"

#include <memory>

#include "scipp/core/time_point.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/string.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/string.h"
#include "scipp/variable/util.h"

using namespace ops;
using namespace scipp;
using scipp::core::dtype;
using scipp::core::time_point;

namespace {
struct Client {
  std::vector<Case> cases;
  std::vector<Out> outs;
};

/// Compare with one after the other, which comes last so that nothing is set
/// up before the concurrent part.
void check(std::vector<Client> &clients) {
  for (auto &c : clients)
    for (size_t i = 0; i < c.cases.size(); ++i) {
      const auto want = outcome(c.cases[i]);
      sim::Quiet q;
      const auto got = picture(c.outs[i]);
      const auto d = differs(got, picture(want));
      if (!d.empty())
        sim::violation("result", "%s differs when run concurrently: %s",
                       c.cases[i].name.c_str(), d.c_str());
      observe(got);
    }
}

void shared(const bool large) {
  const auto w = std::make_shared<World>(draw_world(large));
  WorldSnap before;
  std::vector<Client> clients(2 + sim::draw(2));
  {
    sim::Quiet q;
    before = snap(*w);
  }
  for (auto &c : clients) {
    const auto n = 1 + sim::draw(large ? 2 : 4);
    for (uint32_t i = 0; i < n; ++i)
      c.cases.push_back(draw_case(w));
    c.outs.resize(n);
  }
  // Half of the runs: all clients do the same.
  if (sim::draw_bool())
    for (auto &c : clients)
      c = clients.front();
  std::vector<std::function<void()>> run;
  for (auto &c : clients)
    run.emplace_back([&c] {
      for (size_t i = 0; i < c.cases.size(); ++i)
        c.outs[i] = outcome(c.cases[i]);
    });
  sim::concurrently(run);
  {
    sim::Quiet q;
    const auto d = differs(snap(*w), before);
    if (!d.empty())
      sim::violation("operand", "a shared operand changed: %s", d.c_str());
  }
  check(clients);
}
} // namespace

WORKLOAD(c06_shared, "C06.shared", 18) { shared(false); }
WORKLOAD(c06_shared_large, "C06.shared.large", 1) { shared(true); }

namespace {
Variable scalar(const double x, const Unit u) {
  return makeVariable<double>(Values{x}, u);
}

/// Changes a private copy of a shared object.
struct Mutation {
  std::string name;
  std::function<Out()> run;
};

Mutation draw_mutation(const std::shared_ptr<const World> &shared) {
  const auto k = sim::draw(16);
  const double x = 1 + sim::draw(5);
#define MUT(i, name, body)                                                     \
  case i:                                                                      \
    return {name, [shared, x]() -> Out {                                       \
              const auto &w = *shared;                                         \
              (void)x;                                                         \
              body;                                                            \
            }}
  switch (k) {
    MUT(0, "deep copy += scalar", auto c = copy(w.a); c += scalar(x, units::m);
        return c);
    MUT(1, "deep copy of bins *= scalar", auto c = copy(w.be);
        c *= scalar(x, units::one); return c);
    MUT(2, "shallow copy gets coord", DataArray c(w.da);
        c.coords().set(Dim("mine"), scalar(x, units::m)); return c);
    MUT(3, "shallow copy loses coord", DataArray c(w.da);
        c.coords().erase(Dim("key")); c.setName("mine"); return c);
    MUT(4, "shallow copy gets mask", DataArray c(w.da);
        c.masks().set("mine", copy(w.flags)); return c);
    MUT(5, "shallow copy gets data", DataArray c(w.da); c.setData(copy(w.a));
        c += w.one; return c);
    MUT(6, "deep copy of array += array", auto c = copy(w.counts); c += w.counts;
        return c);
    MUT(7, "dataset loses item", Dataset c(w.ds); c.erase("b"); return c);
    MUT(8, "dataset gets item", Dataset c(w.ds); c.setData("mine", w.a);
        return c);
    MUT(9, "dataset gets coord", Dataset c(w.ds);
        c.setCoord(Dim("mine"), scalar(x, units::m)); return c);
    MUT(10, "deep copy of dataset *= scalar", auto c = copy(w.ds);
        if (c.contains("e")) c.erase("e"); c *= w.one; return c);
    MUT(11, "unit of a copy", auto c = copy(w.a); c.setUnit(units::s);
        return c);
    MUT(12, "append to a copy of bins", auto c = copy(w.de);
        dataset::buckets::append(c, w.de); return c);
    MUT(13, "fill of a copy", auto c = copy(w.a.slice({w.dim, 0}));
        if (c.has_variances()) c *= scalar(x, units::one);
        else fill(c, scalar(x, units::m));
        return c);
    MUT(14, "slice of a copy set", auto c = copy(w.da);
        c.setSlice({w.dim, 0}, c.data().slice({w.dim, 0}) * scalar(x, units::one));
        return c);
    MUT(15, "alignment in a shallow copy", DataArray c(w.da);
        c.coords().set_aligned(Dim("text"), false); return c);
  }
#undef MUT
  return {};
}
} // namespace

/// Copies are independent: some clients change theirs, others read.
WORKLOAD(c06_copies, "C06.copies", 9) {
  const auto w = std::make_shared<World>(draw_world(sim::draw_bool(20)));
  WorldSnap before;
  {
    sim::Quiet q;
    before = snap(*w);
  }
  std::vector<Client> clients(2 + sim::draw(2));
  bool any = false;
  for (auto &c : clients) {
    const auto n = 1 + sim::draw(3);
    const bool mutates = !any || sim::draw_bool();
    any |= mutates;
    for (uint32_t i = 0; i < n; ++i)
      if (mutates) {
        auto m = draw_mutation(w);
        c.cases.push_back({m.name, m.run});
      } else
        c.cases.push_back(draw_case(w));
    c.outs.resize(n);
  }
  std::vector<std::function<void()>> run;
  for (auto &c : clients)
    run.emplace_back([&c] {
      for (size_t i = 0; i < c.cases.size(); ++i)
        c.outs[i] = outcome(c.cases[i]);
    });
  sim::concurrently(run);
  {
    sim::Quiet q;
    const auto d = differs(snap(*w), before);
    if (!d.empty())
      sim::violation("operand",
                     "a shared object changed with its copies: %s", d.c_str());
  }
  check(clients);
}

/// Clients own handles to the same data, the last to finish frees it.
WORKLOAD(c06_lifetime, "C06.lifetime", 3) {
  auto w = std::make_shared<World>(draw_world(false));
  std::vector<Client> clients(2 + sim::draw(3));
  std::vector<std::vector<Picture>> want(clients.size());
  for (size_t k = 0; k < clients.size(); ++k) {
    const auto n = 1 + sim::draw(2);
    // Handles of its own to the data.
    const auto mine = std::make_shared<World>(*w);
    for (uint32_t i = 0; i < n; ++i)
      clients[k].cases.push_back(draw_case(mine));
  }
  for (size_t k = 0; k < clients.size(); ++k)
    for (auto &c : clients[k].cases) {
      const auto o = outcome(c);
      sim::Quiet q;
      want[k].push_back(picture(o));
    }
  w.reset(); // only the clients have handles
  std::vector<std::vector<Picture>> got(clients.size());
  std::vector<std::function<void()>> run;
  for (size_t k = 0; k < clients.size(); ++k)
    run.emplace_back([&, k] {
      auto &c = clients[k];
      for (auto &x : c.cases) {
        auto o = outcome(x);
        x.run = nullptr; // drops the handles
        sim::Quiet q;
        got[k].push_back(picture(o));
      }
    });
  sim::concurrently(run);
  sim::Quiet q;
  for (size_t k = 0; k < clients.size(); ++k)
    for (size_t i = 0; i < want[k].size(); ++i) {
      const auto d = differs(got[k][i], want[k][i]);
      if (!d.empty())
        sim::violation("result", "%s differs when run concurrently: %s",
                       clients[k].cases[i].name.c_str(), d.c_str());
      observe(got[k][i]);
    }
}

/// Disjoint slices of one object are written by different clients.
WORKLOAD(c06_slices, "C06.slices", 9) {
  const bool bins = sim::draw_bool(3);
  const bool array = sim::draw_bool(3);
  const bool large = !bins && sim::draw_bool(6);
  Ext s;
  if (large) {
    s.labels = {dim_of(0), dim_of(1)};
    s.shape = {2 + idx(sim::draw(3)), 20000};
    if (sim::draw_bool())
      std::swap(s.shape[0], s.shape[1]);
  } else {
    s = draw_shape(3, 60, false);
    if (s.labels.empty()) {
      s.labels = {dim_of(0)};
      s.shape = {4};
    }
  }
  const auto at = sim::draw(uint32_t(s.labels.size()));
  const auto d = s.labels[at];
  const auto n = s.shape[at];
  auto g = draw_gen();
  Opts o;
  o.dtype = sim::draw_bool(3) ? dtype<float> : dtype<double>;
  o.unit = units::m;
  o.variances = sim::draw_bool(3);
  o.gen = [g]() mutable { return double(g.in(-9, 9)); };
  EvOpts eo;
  eo.unit = units::m;
  eo.variances = o.variances;
  eo.value = [](Gen &r) { return double(r.in(1, 9)); };
  eo.coords.push_back({Dim("ev"), dtype<double>,
                       [](Gen &r) { return double(r.in(0, 20)); }});
  const auto data = bins ? (sim::draw_bool() ? events(s, eo) : binned(s, o).var)
                         : dense(s, o).var;
  DataArray da(data);
  if (array)
    for (auto &[k, v] : draw_masks(s, 2))
      da.masks().set(k, v);
  const auto reference = copy(da);
  struct Write {
    Slice s;
    uint32_t op;
    double x;
  };
  std::vector<std::vector<Write>> work(2 + sim::draw(2));
  // Cut into ranges, one or more per client.
  std::vector<std::pair<idx, idx>> ranges;
  for (idx i = 0; i < n;) {
    const idx e = std::min<idx>(n, i + 1 + idx(sim::draw(large ? 9000 : 3)));
    ranges.emplace_back(i, e);
    i = e;
  }
  for (const auto &[b, e] : ranges) {
    auto &c = work[sim::draw(uint32_t(work.size()))];
    const auto k = 1 + sim::draw(2);
    for (uint32_t i = 0; i < k; ++i)
      c.push_back({e - b == 1 && sim::draw_bool() ? Slice(d, b)
                                                  : Slice(d, b, e),
                   sim::draw(5), 1.0 + sim::draw(3)});
  }
  const auto apply = [&](const Write &w, DataArray &target) {
    const auto x = makeVariable<double>(Values{w.x}, units::one);
    auto slice = target.slice(w.s);
    auto var = slice.data();
    const auto xs = o.dtype == dtype<float> && !(bins)
                        ? makeVariable<float>(Values{float(w.x)}, units::one)
                        : x;
    switch (w.op) {
    case 0:
      var *= xs;
      break;
    case 1:
      var /= xs;
      break;
    case 2:
      var += var;
      break;
    case 3:
      if (array && !bins)
        target.setSlice(w.s, copy(slice.data()) * xs);
      else
        copy(copy(var), var);
      break;
    default:
      slice *= xs;
    }
  };
  std::vector<std::string> errors(work.size()), again(work.size());
  std::vector<std::function<void()>> run;
  for (size_t k = 0; k < work.size(); ++k)
    run.emplace_back([&, k] {
      try {
        DataArray mine(da); // handle of its own
        for (const auto &w : work[k])
          apply(w, mine);
      } catch (const std::exception &e) {
        errors[k] = e.what();
      }
    });
  sim::concurrently(run);
  DataArray want(reference);
  for (size_t k = 0; k < work.size(); ++k)
    try {
      for (const auto &w : work[k])
        apply(w, want);
    } catch (const std::exception &e) {
      again[k] = e.what();
    }
  sim::Quiet q;
  for (size_t k = 0; k < work.size(); ++k)
    if (errors[k] != again[k])
      sim::violation("error", "client %zu: '%s', one after the other: '%s'", k,
                     errors[k].c_str(), again[k].c_str());
  Cmp cmp;
  cmp.flags = false;
  const auto got = dm::snap(da);
  const auto diff = dm::differs(got, dm::snap(want), cmp);
  if (!diff.empty())
    sim::violation("slices", "writes to disjoint slices along %s: %s",
                   d.name().c_str(), diff.c_str());
  dm::observe(got);
}

/// Text of values of all kinds.
WORKLOAD(c06_text, "C06.text", 6) {
  auto g = draw_gen();
  static const Unit units[] = {units::s,  Unit("ms"), units::us,
                               units::ns, Unit("D"),  Unit("min")};
  const auto n = 1 + idx(sim::draw(5));
  std::vector<Variable> vars;
  for (int i = 0; i < 3; ++i) {
    const auto u = sim::draw(sim::draw_bool(8) ? 6 : 4);
    const int64_t range = u < 2 ? 4000000000 : u < 4 ? 4000000000000000 : 30000;
    core::element_array<time_point> v(n);
    for (auto &t : v)
      t = time_point(g.in(-range / 4, range));
    vars.emplace_back(units[u], core::Dimensions({Dim::Time}, {n}),
                      std::move(v),
                      std::optional<core::element_array<time_point>>{});
  }
  std::vector<Client> clients(2 + sim::draw(3));
  for (auto &c : clients) {
    const auto m = 1 + sim::draw(3);
    for (uint32_t i = 0; i < m; ++i) {
      const auto v = vars[sim::draw(3)];
      switch (sim::draw(3)) {
      case 0:
        c.cases.push_back({"to_string", [v]() -> Out {
                             return variable::to_string(v);
                           }});
        break;
      case 1:
        c.cases.push_back({"format_variable", [v]() -> Out {
                             return format_variable(v);
                           }});
        break;
      default:
        c.cases.push_back({"data array to_string", [v]() -> Out {
                             DataArray a(v, {{Dim::Time, v}});
                             return dataset::to_string(a);
                           }});
      }
    }
    c.outs.resize(m);
  }
  std::vector<std::function<void()>> run;
  for (auto &c : clients)
    run.emplace_back([&c] {
      for (size_t i = 0; i < c.cases.size(); ++i)
        c.outs[i] = outcome(c.cases[i]);
    });
  sim::concurrently(run);
  check(clients);
}
