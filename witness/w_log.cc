// Clients of the default environment's logger.
#include "v.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" void v_logcall(const char *format);
extern "C" void v_logged();
extern "C" void v_leakbase();
extern "C" void c22_log() {
  Env *e = Env::Default();
  v_leakbase();
  std::string name = v_string("f"), fmt = v_string("format");
  Logger *l;
  Status s = e->NewLogger(name, &l);
  if (!s.ok()) return;
  int calls = v_choice(3);
  for (int k = 0; k < calls; k++) {
    v_logcall(fmt.c_str());
    Log(l, fmt.c_str(), v_i32(), name.c_str());
    v_logged();
  }
  delete l;
  v_reach("logger destroyed");
}
extern "C" void c22_null() {
  std::string fmt = v_string("format");
  Log(nullptr, fmt.c_str(), 3);
  v_reach("null logger");
}
