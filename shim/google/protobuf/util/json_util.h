// The text itself is protobuf's business: in the encoding it names the message.
#pragma once
#include <string>
#include "absl/status/status.h"
#include "google/protobuf/vsx_message.h"
namespace google {
namespace protobuf {
namespace util {
struct JsonPrintOptions { bool add_whitespace = false, always_print_primitive_fields = false, preserve_proto_field_names = false; };
template <class M>
absl::Status MessageToJsonString(const M& m, std::string* out, const JsonPrintOptions& = {}) {
  *out += "{\"of\":\"" + m.reference_filepath() + "\",\"and\":\"" + m.degraded_filepath() + "\"}";
  return absl::Status();
}
}  // namespace util
}  // namespace protobuf
}  // namespace google
