// scenarios as a shared object, built with various switches
#include "scen_run.hpp"
extern "C" __attribute__((visibility("default"))) void scen_run(const scen::In *in, scen::Out *o) {
  scen::run(*in, *o);
#if SCEN_PART == 1
  pbt::hook() = pbt::Hook();
#else
  pbt::syhook<double>() = pbt::SyHook<double>();
  pbt::syhook<long double>() = pbt::SyHook<long double>();
#endif
}
// yield is called in every call of a function of the user
extern "C" __attribute__((visibility("default"))) void scen_run_yield(const scen::In *in, scen::Out *o, void (*yield)(void *), void *arg) {
  pbt::yield_point = yield;
  pbt::yield_arg = arg;
  scen_run(in, o);
  pbt::yield_point = nullptr;
}
