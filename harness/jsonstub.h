// The text form of configs and forests.  In the symbolic build the conversion (protobuf's) is replaced by
// one that keeps a copy of the message under a name; the native build converts for real.
#ifndef JSONSTUB_H_
#define JSONSTUB_H_
#include <google/protobuf/message.h>
#include "src/utils/json_utils.h"
#ifdef __clang__
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
static std::vector<gbdt::Config> js_configs; static std::vector<gbdt::Forest> js_forests;
template <class A> static bool js_is(const google::protobuf::Message& m) { A a; return *(void* const*)&m == *(void* const*)&static_cast<const google::protobuf::Message&>(a); }
Status JsonUtils::ToJson(const google::protobuf::Message& m, std::string* s) {
  if (js_is<gbdt::Config>(m)) { js_configs.push_back(static_cast<const gbdt::Config&>(m)); *s = "#c"; s->push_back((char)js_configs.size()); return Status::OK; }
  if (js_is<gbdt::Forest>(m)) { js_forests.push_back(static_cast<const gbdt::Forest&>(m)); *s = "#f"; s->push_back((char)js_forests.size()); return Status::OK; }
  return Status(error::INTERNAL, "unknown message");
}
Status JsonUtils::FromJson(const std::string& s, google::protobuf::Message* m) {
  if (s.size() != 3 || s[0] != '#') return Status(error::INVALID_ARGUMENT, "invalid json"); size_t i = (unsigned char)s[2] - 1;
  if (s[1] == 'c' && js_is<gbdt::Config>(*m) && i < js_configs.size()) { *static_cast<gbdt::Config*>(m) = js_configs[i]; return Status::OK; }
  if (s[1] == 'f' && js_is<gbdt::Forest>(*m) && i < js_forests.size()) { *static_cast<gbdt::Forest*>(m) = js_forests[i]; return Status::OK; }
  return Status(error::INVALID_ARGUMENT, "invalid json");
}
#endif
#endif
