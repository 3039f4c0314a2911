// Registration of workloads with the runner.
#pragma once
#include "simrt.h"

namespace sim {
struct Workload {
  const char *name;
  void (*fn)();
  int weight;
  Workload *next;
};
void register_workload(Workload *w);
struct Registrar {
  Workload w;
  Registrar(const char *name, void (*fn)(), int weight)
      : w{name, fn, weight, nullptr} {
    register_workload(&w);
  }
};
} // namespace sim
/// A workload named "<property>.<what>"; it is picked with relative `weight`.
#define WORKLOAD(id, name, weight)                                             \
  static void workload_##id();                                                 \
  static ::sim::Registrar registrar_##id{name, workload_##id, weight};         \
  static void workload_##id()
