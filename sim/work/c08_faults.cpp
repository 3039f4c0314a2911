// C08: allocation failures at any point of an operation that returns
// something new.
#include "ops.h"

#include <memory>
#include <new>

#include "scipp/dataset/bins.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/shape.h"

using namespace ops;
using namespace scipp;
using scipp::core::dtype;

namespace {
/// Outcome of one attempt, without allocations of the harness in between.
struct Attempt {
  bool done = false;      // returned a result
  bool failed = false;    // bad_alloc
  bool rejected = false;  // another exception
  sim::FaultResult fault{};
  char what[200] = {};
};

Attempt attempt(const Case &c, Out &out, const int64_t fail_at,
                const bool sticky) {
  Attempt a;
  sim::fault_window(fail_at, sticky);
  try {
    out = c.run();
    a.done = true;
  } catch (const std::bad_alloc &) {
    a.failed = true;
  } catch (const std::exception &e) {
    a.rejected = true;
    strncpy(a.what, e.what(), sizeof a.what - 1);
  }
  a.fault = sim::end_fault_window();
  return a;
}

constexpr int64_t Never = int64_t(1) << 60;

void check_operation(const bool large) {
  const auto w = std::make_shared<World>(draw_world(large));
  const auto c = draw_case(w);
  WorldSnap before;
  {
    sim::Quiet q;
    before = snap(*w);
  }
  Out out;
  const auto first = attempt(c, out, Never, false);
  if (first.failed)
    sim::violation("failure", "%s: bad_alloc without a fault", c.name.c_str());
  if (first.rejected)
    sim::skip("operation rejected");
  Picture want;
  {
    sim::Quiet q;
    want = picture(out);
  }
  out = Out{};
  const auto again = attempt(c, out, Never, false);
  out = Out{};
  const int rounds = large ? 2 : 1 + int(sim::draw(4));
  for (int r = 0; r < rounds; ++r) {
    const auto n = uint32_t(std::max<int64_t>(1, again.fault.allocations));
    const bool sticky = sim::draw_bool(4);
    const auto at = sim::draw(n);
    const auto live = sim::live_blocks();
    const auto bytes = sim::live_bytes();
    const auto a = attempt(c, out, at, sticky);
    if (a.done && want.kind >= 2) { // streams truncate text silently
      sim::Quiet q;
      const auto d = differs(picture(out), want);
      if (!d.empty())
        sim::violation("result",
                       "%s returned a wrong result when allocation %u of %u "
                       "failed: %s",
                       c.name.c_str(), at, n, d.c_str());
    } else if (!a.done && !a.fault.fired)
      sim::violation("failure", "%s failed without a fault: %s",
                     c.name.c_str(), a.what);
    out = Out{};
    const auto now = sim::live_blocks();
    if (now != live)
      sim::violation("leak",
                     "%s left %ld blocks (%ld bytes) behind when allocation "
                     "%u of %u failed%s",
                     c.name.c_str(), long(now - live),
                     long(sim::live_bytes() - bytes), at, n,
                     sticky ? " and all after it" : "");
    {
      sim::Quiet q;
      const auto d = differs(snap(*w), before);
      if (!d.empty())
        sim::violation("operand",
                       "%s changed an operand when allocation %u of %u "
                       "failed: %s",
                       c.name.c_str(), at, n, d.c_str());
    }
    sim::observe(uint64_t(a.done * 4 + a.failed * 2 + a.rejected));
  }
  const auto last = attempt(c, out, Never, false);
  sim::Quiet q;
  if (!last.done)
    sim::violation("retry", "%s fails after faults: %s", c.name.c_str(),
                   last.what);
  const auto got = picture(out);
  const auto d = differs(got, want);
  if (!d.empty())
    sim::violation("retry", "%s differs after faults: %s", c.name.c_str(),
                   d.c_str());
  observe(got);
}
} // namespace

WORKLOAD(c08_operation, "C08.operation", 24) { check_operation(false); }
WORKLOAD(c08_operation_large, "C08.operation.large", 1) {
  check_operation(true);
}

/// One client hits allocation failures, which the other, working on the same
/// operands, may be the one to see.
WORKLOAD(c08_shared, "C08.shared", 9) {
  const auto w = std::make_shared<World>(draw_world(false));
  std::vector<Case> cases;
  std::vector<Picture> want;
  const auto n = 2 + sim::draw(2);
  int64_t total = 0;
  for (uint32_t i = 0; i < n; ++i) {
    cases.push_back(draw_case(w));
    Out out;
    const auto a = attempt(cases[i], out, Never, false);
    if (!a.done)
      sim::skip("operation rejected");
    total += a.fault.allocations;
    sim::Quiet q;
    want.push_back(picture(out));
  }
  WorldSnap before;
  {
    sim::Quiet q;
    before = snap(*w);
  }
  std::vector<Out> outs(n);
  std::vector<char> failed(n, 0);
  std::vector<std::function<void()>> run;
  for (uint32_t i = 0; i < n; ++i)
    run.emplace_back([&, i] {
      try {
        outs[i] = cases[i].run();
      } catch (const std::bad_alloc &) {
        failed[i] = 1;
      } catch (const std::exception &) {
        failed[i] = 2;
      }
    });
  const auto at = sim::draw(uint32_t(std::max<int64_t>(1, total)));
  sim::fault_window(at, sim::draw_bool(6));
  sim::concurrently(run);
  const auto fault = sim::end_fault_window();
  sim::Quiet q;
  for (uint32_t i = 0; i < n; ++i) {
    if (failed[i] && !fault.fired)
      sim::violation("failure", "%s failed without a fault",
                     cases[i].name.c_str());
    if (!failed[i] && want[i].kind >= 2) {
      const auto d = differs(picture(outs[i]), want[i]);
      if (!d.empty())
        sim::violation("result",
                       "%s returned a wrong result when an allocation of a "
                       "concurrent operation failed: %s",
                       cases[i].name.c_str(), d.c_str());
    }
    sim::observe(failed[i]);
  }
  const auto d = differs(snap(*w), before);
  if (!d.empty())
    sim::violation("operand", "an operand changed when an allocation failed: %s",
                   d.c_str());
}

/// Targets of operations in place may be modified in part, but stay valid and
/// own what they should.
WORKLOAD(c08_inplace, "C08.inplace", 9) {
  const auto w = std::make_shared<World>(draw_world(sim::draw_bool(12)));
  const auto one = makeVariable<double>(Values{2.0}, units::one);
  const auto which = sim::draw(14);
  const auto small = copy(w->a.slice({w->dim, 0}));
  const auto mask = copy(w->flags);
  const auto other = copy(w->da);
  const auto act = [&](DataArray &a, Dataset &d) {
    switch (which) {
    case 0:
      a *= one;
      return;
    case 1:
      a += other;
      return;
    case 2:
      a.masks().set("mine", mask);
      return;
    case 3:
      a.coords().set(Dim("mine"), w->one);
      return;
    case 4:
      a.coords().erase(Dim("key"));
      return;
    case 5:
      a.setSlice({w->dim, 0}, small);
      return;
    case 6:
      a.setData(w->b + w->a);
      return;
    case 7:
      a.setName(std::string(100, 'x'));
      return;
    case 8:
      d.setData("mine", w->a);
      return;
    case 9:
      d.erase("b");
      return;
    case 10:
      d.setCoord(Dim("mine"), w->one);
      return;
    case 11:
      d *= one;
      return;
    case 12:
      dataset::buckets::append(a, w->de);
      return;
    default:
      a.masks().extract(a.masks().begin()->first);
    }
  };
  const auto target = which == 12 ? w->de : w->da;
  const auto make = [&](DataArray &a, Dataset &d) {
    a = copy(target);
    d = copy(w->ds);
    if (which == 11 && d.contains("e"))
      d.erase("e");
    if (which == 13)
      a.masks().set("z", w->flags);
  };
  WorldSnap before;
  {
    sim::Quiet q;
    before = snap(*w);
  }
  int64_t n = 0;
  bool rejected = false;
  {
    DataArray a;
    Dataset d;
    make(a, d);
    sim::fault_window(Never);
    try {
      act(a, d);
    } catch (const std::exception &) {
      rejected = true;
    }
    n = sim::end_fault_window().allocations;
  }
  if (rejected)
    sim::skip("operation rejected");
  const auto at = sim::draw(uint32_t(std::max<int64_t>(1, n)));
  const auto sticky = sim::draw_bool(4);
  const auto live = sim::live_blocks();
  {
    DataArray a;
    Dataset d;
    make(a, d);
    bool failed = false;
    sim::fault_window(at, sticky);
    try {
      act(a, d);
    } catch (const std::bad_alloc &) {
      failed = true;
    } catch (const std::exception &) {
      failed = true;
    }
    const auto fault = sim::end_fault_window();
    if (failed && !fault.fired)
      sim::violation("failure", "operation %u failed without a fault", which);
    // Can be read, copied and compared.
    sim::Quiet q;
    const auto s = dm::snap(copy(a));
    dm::observe(s);
    const auto t = dm::snap(copy(d));
    dm::observe(t);
    for (const auto &[k, i] : t.items)
      for (size_t x = 0; x < i.data.l.labels.size(); ++x) {
        bool found = false;
        for (const auto &[name, size] : t.sizes)
          found |= name == i.data.l.labels[x].name() &&
                   size == i.data.l.shape[x];
        if (!found)
          sim::violation("structure", "item %s does not fit the dataset",
                         k.c_str());
      }
  }
  const auto now = sim::live_blocks();
  if (now != live)
    sim::violation("leak",
                   "operation %u left %ld blocks behind when allocation %u "
                   "failed",
                   which, long(now - live), at);
  sim::Quiet q;
  const auto diff = differs(snap(*w), before);
  if (!diff.empty())
    sim::violation("operand", "operation %u changed an operand: %s", which,
                   diff.c_str());
}
