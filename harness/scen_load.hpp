// Scenarios executed by shared objects.
#pragma once
#include "scen.hpp"
#include <dlfcn.h>
namespace scen {
struct Plugin {
  typedef void (*Fn)(const In *, Out *);
  typedef void (*FnY)(const In *, Out *, void (*)(void *), void *);
  Fn f[2];
  FnY fy[2];
  Plugin(const std::string &name) {
    for (int k = 0; k < 2; k++) {
      std::string v = "PLUGIN_" + name + std::to_string(k + 1);
      void *h = getenv(v.c_str()) ? dlopen(getenv(v.c_str()), RTLD_NOW | RTLD_LOCAL) : nullptr;
      f[k] = h ? (Fn)dlsym(h, "scen_run") : nullptr;
      fy[k] = h ? (FnY)dlsym(h, "scen_run_yield") : nullptr;
      if (!f[k]) { fprintf(stderr, "%s: %s\n", v.c_str(), dlerror()); exit(3); }
    }
  }
  void operator()(const In &in, Out &o) const { f[in.solver / 3](&in, &o); }
  void operator()(const In &in, Out &o, void (*yield)(void *), void *arg) const { fy[in.solver / 3](&in, &o, yield, arg); }
};
}  // namespace scen
