// C01: the registry of dimension labels.
#include "../rt/runner.h"
#include "scipp/units/dim.h"

#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

using scipp::units::Dim;
using Id = Dim::Id;

namespace {
const std::vector<std::pair<const char *, Id>> &builtins() {
  static const std::vector<std::pair<const char *, Id>> b{
      {"<none>", Dim::None},
      {"<internal_structure_component>", Dim::InternalStructureComponent},
      {"<internal_structure_row>", Dim::InternalStructureRow},
      {"<internal_structure_column>", Dim::InternalStructureColumn},
      {"<internal_histogram>", Dim::InternalHistogram},
      {"<internal_sort>", Dim::InternalSort},
      {"<internal_accumulate>", Dim::InternalAccumulate},
      {"<invalid>", Dim::Invalid},
      {"energy", Dim::Energy},
      {"event", Dim::Event},
      {"group", Dim::Group},
      {"position", Dim::Position},
      {"row", Dim::Row},
      {"temperature", Dim::Temperature},
      {"time", Dim::Time},
      {"wavelength", Dim::Wavelength},
      {"x", Dim::X},
      {"y", Dim::Y},
      {"z", Dim::Z}};
  return b;
}
Id builtin_id(const std::string &s) {
  for (const auto &[n, id] : builtins())
    if (s == n)
      return id;
  return Dim::InternalSubbin; // stands for "not a builtin"
}
constexpr auto NotBuiltin = Dim::InternalSubbin;

std::string make_label(uint32_t i, int style) {
  switch (style) {
  case 0:
    return "dim" + std::to_string(i);
  case 1: // common prefix longer than any small buffer
    return std::string(40 + i % 3, 'q') + std::to_string(i);
  case 2: // same characters in different order, different case
    return std::string(1, "xX"[i & 1]) + std::string(1, "yY"[i >> 1 & 1]) +
           std::string(1, "zZ"[i >> 2 & 1]) + std::string(i >> 3, ' ');
  case 3: // embedded zeros, high bytes
    return std::string("a\0b\xff", 4) + std::string(i % 5, '\0') +
           std::to_string(i / 5);
  case 4: // extensions of builtin labels
    return std::string(builtins()[i % builtins().size()].first) +
           std::string(1 + i / builtins().size(), i % 2 ? ' ' : '\'');
  default:
    return std::string(i, 'n'); // "", "n", "nn", ...
  }
}

enum Kind { Label, Name, Order };
struct Op {
  int kind;
  int label;
  // results
  bool ok = false;
  int exc = 0; // 1 = bad_alloc, 2 = runtime_error, 3 = other
  Id id{};
  std::string name;
};

void check_op(const std::string &label, const Op &op) {
  const auto b = builtin_id(label);
  if (b != NotBuiltin && op.id != b)
    sim::violation("builtin", "Dim(\"%s\") has id %d, the built-in id is %d",
                   label.c_str(), int(op.id), int(b));
  if (b == NotBuiltin && int(op.id) < 1000)
    sim::violation("builtin", "Dim(\"%s\") has the built-in id %d",
                   label.c_str(), int(op.id));
}

struct Registry { // what the observers have learnt
  std::map<std::string, Id> ids;
  std::map<Id, std::string> names;
  void learn(const std::string &label, Id id) {
    const auto [it, fresh] = ids.emplace(label, id);
    if (!fresh && it->second != id)
      sim::violation("two-ids", "label \"%s\" has ids %d and %d", label.c_str(),
                     int(it->second), int(id));
    const auto [jt, fresh2] = names.emplace(id, label);
    if (!fresh2 && jt->second != label)
      sim::violation("shared-id", "labels \"%s\" and \"%s\" share id %d",
                     jt->second.c_str(), label.c_str(), int(id));
  }
  void verify() const {
    for (const auto &[label, id] : ids) {
      const Dim d(label);
      if (d.id() != id)
        sim::violation("unstable-id", "label \"%s\" had id %d, now %d",
                       label.c_str(), int(id), int(d.id()));
      const auto n = Dim(id).name();
      if (n != label)
        sim::violation("wrong-name", "id %d of label \"%s\" has name \"%s\"",
                       int(id), label.c_str(), n.c_str());
      if (to_string(d) != label)
        sim::violation("wrong-name", "to_string of \"%s\"", label.c_str());
    }
    const Dim *prev = nullptr;
    Dim p;
    for (const auto &[id, label] : names) { // ascending ids
      const Dim d(id);
      if (prev && (d == p || !(d != p) || !(p < d) || d < p))
        sim::violation("order", "ids %d and %d compare wrongly", int(p.id()),
                       int(d.id()));
      if (std::hash<Dim>{}(d) != std::hash<Dim>{}(Dim(label)))
        sim::violation("hash", "equal dims \"%s\" hash differently",
                       label.c_str());
      p = d;
      prev = &p;
    }
  }
};

void run_op(const std::vector<std::string> &labels, Op &op) {
  const auto &label = labels[op.label];
  try {
    switch (op.kind) {
    case Label: {
      const Dim d(label);
      op.id = d.id();
      op.name = label;
      break;
    }
    case Name: { // round trip
      const Dim d(label);
      op.id = d.id();
      op.name = d.name();
      break;
    }
    default: { // two lookups of one label agree whatever happens in between
      const Dim a(label);
      const Dim b(label);
      op.id = a.id();
      op.name = label;
      if (a != b || !(a == b) || a < b || b < a)
        sim::violation("two-ids", "two Dim(\"%s\") differ: %d and %d",
                       label.c_str(), int(a.id()), int(b.id()));
    }
    }
    op.ok = true;
  } catch (const std::bad_alloc &) {
    op.exc = 1;
  } catch (const std::runtime_error &) {
    op.exc = 2;
  } catch (...) {
    op.exc = 3;
  }
}

void history(int nclient, int nlabel, int nop, bool faults, bool prefill) {
  std::vector<std::string> labels;
  std::set<std::string> distinct;
  const int style = sim::draw_in(0, 6);
  for (int i = 0; i < nlabel; ++i) {
    const int s = style == 6 ? sim::draw_in(0, 5) : style;
    const auto l = make_label(sim::draw(nlabel < 12 ? 12 : nlabel), s);
    if (distinct.insert(l).second)
      labels.push_back(l);
  }
  for (int i = sim::draw_in(0, 3); i > 0; --i)
    labels.push_back(builtins()[sim::draw(builtins().size())].first);
  if (labels.empty())
    labels.push_back("d");

  Registry reg;
  if (prefill)
    for (int i = sim::draw_in(1, 40); i > 0; --i) {
      const auto l = "pre" + std::to_string(i);
      reg.learn(l, Dim(l).id());
    }
  std::vector<std::vector<Op>> ops(nclient);
  for (auto &c : ops)
    for (int i = 0; i < nop; ++i)
      c.push_back(Op{sim::draw_in(0, 2),
                     static_cast<int>(sim::draw(labels.size()))});
  const int64_t fail = faults ? sim::draw_in(0, 4 * nclient + 6) : -1;
  const bool sticky = faults && sim::draw_bool(3);
  std::vector<std::function<void()>> clients;
  for (auto &c : ops)
    clients.push_back([&c, &labels] {
      for (auto &op : c)
        run_op(labels, op);
    });
  sim::fault_window(fail, sticky);
  if (nclient == 1)
    clients[0]();
  else
    sim::concurrently(clients);
  const auto fr = sim::end_fault_window();

  for (const auto &c : ops)
    for (const auto &op : c) {
      sim::observe(uint64_t(op.id) * 8 + op.exc);
      const auto &label = labels[op.label];
      if (!op.ok) {
        if (op.exc == 1 && fr.fired)
          continue;
        sim::violation("unexpected-exception",
                       "Dim(\"%s\") threw (%d) without a fault", label.c_str(),
                       op.exc);
      }
      check_op(label, op);
      if (op.name != label)
        sim::violation("wrong-name", "Dim(\"%s\").name() is \"%s\"",
                       label.c_str(), op.name.c_str());
      reg.learn(label, op.id);
    }
  // The registry still works for everybody, including labels that failed.
  for (const auto &l : labels) {
    const Dim d(l);
    reg.learn(l, d.id());
  }
  reg.verify();
  for (const auto &[n, id] : builtins())
    if (Dim(std::string(n)).id() != id || Dim(id).name() != n)
      sim::violation("builtin", "built-in label \"%s\" no longer maps to %d", n,
                     int(id));
}
} // namespace

WORKLOAD(dim_register, "C01.register", 30) {
  history(sim::draw_in(2, 5), sim::draw_in(1, 8), sim::draw_in(1, 6), false,
          sim::draw_bool(3));
}
WORKLOAD(dim_fault, "C01.alloc-fault", 20) {
  history(sim::draw_in(1, 4), sim::draw_in(1, 8), sim::draw_in(1, 6), true,
          sim::draw_bool(3));
}
WORKLOAD(dim_many, "C01.many", 3) { // past several rehashes of the table
  history(sim::draw_in(2, 4), sim::draw_in(30, 160), sim::draw_in(20, 60),
          sim::draw_bool(4), sim::draw_bool(3));
}
// The space of ids is finite: it must be used up exactly, and no id handed out
// twice, when several clients race for the last ones.
WORKLOAD(dim_capacity, "C01.capacity", 1) {
  constexpr int Capacity = 65535 - 1000 + 1;
  const int left = sim::draw_in(0, 6);
  const int nclient = sim::draw_in(1, 4);
  Registry reg;
  std::vector<Id> prefix;
  {
    std::string l;
    for (int i = 0; i < Capacity - left; ++i) {
      l = "c" + std::to_string(i);
      try {
        prefix.push_back(Dim(l).id());
      } catch (const std::runtime_error &) {
        sim::violation("capacity", "no id left for label %d of %d", i,
                       Capacity);
      }
    }
  }
  {
    std::vector<bool> seen(65536);
    for (const auto id : prefix) {
      if (static_cast<int>(id) < 1000 || seen[static_cast<int>(id)])
        sim::violation("shared-id", "id %d was handed out twice", int(id));
      seen[static_cast<int>(id)] = true;
    }
  }
  std::vector<std::string> labels;
  for (int i = sim::draw_in(left, left + 4); i >= 0; --i)
    labels.push_back("new" + std::to_string(i));
  std::vector<std::vector<Op>> ops(nclient);
  for (auto &c : ops)
    for (int i = sim::draw_in(1, 2 * int(labels.size())); i > 0; --i)
      c.push_back(Op{Label, static_cast<int>(sim::draw(labels.size()))});
  std::vector<std::function<void()>> clients;
  for (auto &c : ops)
    clients.push_back([&] {
      for (auto &op : c)
        run_op(labels, op);
    });
  if (nclient == 1)
    clients[0]();
  else
    sim::concurrently(clients);
  bool full = false;
  for (const auto &c : ops)
    for (const auto &op : c) {
      sim::observe(uint64_t(op.id) * 8 + op.exc);
      if (op.ok) {
        check_op(labels[op.label], op);
        reg.learn(labels[op.label], op.id);
      } else if (op.exc == 2)
        full = true;
      else
        sim::violation("unexpected-exception", "exception %d", op.exc);
    }
  if (static_cast<int>(reg.ids.size()) > left)
    sim::violation("capacity", "%zu labels registered with %d ids left",
                   reg.ids.size(), left);
  if (full && static_cast<int>(reg.ids.size()) != left)
    sim::violation("capacity", "rejected a label with %zu of %d ids used",
                   reg.ids.size(), left);
  if (full)
    sim::count(sim::FaultReject);
  for (const auto &[l, id] : reg.ids)
    if (Dim(l).id() != id || Dim(id).name() != l)
      sim::violation("unstable-id", "label \"%s\" changed", l.c_str());
  for (int k = 0; k < 20; ++k) {
    const int i = static_cast<int>(sim::draw(prefix.size()));
    if (Dim("c" + std::to_string(i)).id() != prefix[i])
      sim::violation("unstable-id", "label c%d changed", i);
  }
  for (const auto id : prefix)
    for (const auto &[l, jd] : reg.ids)
      if (id == jd)
        sim::violation("shared-id", "id %d of \"%s\" was in use", int(id),
                       l.c_str());
}
