// Whole-file helpers over an environment that answers the same question the same way: they come back.
#include "v.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" void t_file() {
  Env *env = NewMemEnv(nullptr);
  std::string name("/dir/file"), back;
  size_t n = v_size(0, 2 * 8192 + 100);
  const char *d = v_mem(n, "data");
  Status s = WriteStringToFile(env, Slice(d, n), name);
  v_check(s.ok(), "the file is written");
  s = ReadFileToString(env, name, &back);
  v_check(s.ok() && back.size() == n, "and read back");
  if (n) v_same(back.data(), d, n, "with its contents");
  s = env->RemoveFile(name);
  v_check(s.ok(), "and removed");
  delete env;
  v_reach("whole file");
}
