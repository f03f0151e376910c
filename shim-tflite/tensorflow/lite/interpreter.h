// Stand-in for the parts of TensorFlow Lite that the lattice mapper calls; the
// harness decides every outcome and sees every tensor access.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "absl/strings/str_cat.h"
typedef enum { kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2 } TfLiteStatus;
enum { kTfLiteDelegateFlagsNone = 0, kTfLiteDelegateFlagsAllowDynamicTensors = 1 };
struct TfLiteTensor { union { float* f; } data; };
struct TfLiteDelegate { int64_t flags; };
enum { TFLITE_XNNPACK_DELEGATE_FLAG_QU8 = 2 };
struct TfLiteXNNPackDelegateOptions { int32_t num_threads; uint32_t flags; };
inline TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*) { return new TfLiteDelegate{0}; }
inline void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) { delete d; }
struct TfState {
  bool load = true, threads = true, build = true, alloc = true;
  int delegate = 0;
  std::string path, signature;
  std::vector<std::pair<std::string, float>> in;   // declared inputs and their values
  std::vector<TfLiteTensor*> tensors;
  std::vector<int> writes;
  int invoked = 0;
  float out = 0;
  std::vector<float> at_invoke;             // the inputs when the model last ran
};
extern TfState* g_tf;
namespace tflite {
struct FlatBufferModel {
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* p) { g_tf->path = p; return g_tf->load ? std::make_unique<FlatBufferModel>() : nullptr; }
};
struct SignatureRunner {
  TfLiteTensor out_tensor;
  TfLiteTensor* input_tensor(const char* n) {
    for (size_t i = 0; i < g_tf->in.size(); i++)
      if (g_tf->in[i].first == n) { g_tf->tensors[i]->data.f = &g_tf->in[i].second; return g_tf->tensors[i]; }
    return nullptr;
  }
  TfLiteStatus Invoke() { g_tf->invoked++; g_tf->at_invoke.clear(); for (auto& p : g_tf->in) g_tf->at_invoke.push_back(p.second); return kTfLiteOk; }
  const TfLiteTensor* output_tensor(const char* n) { out_tensor.data.f = &g_tf->out; return std::string(n) == "predictions" && g_tf->invoked ? &out_tensor : nullptr; }
};
struct Interpreter {
  SignatureRunner runner;
  TfLiteStatus AllocateTensors() { return g_tf->alloc ? kTfLiteOk : kTfLiteError; }
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate*) { return (TfLiteStatus)g_tf->delegate; }
  SignatureRunner* GetSignatureRunner(const char* n) { g_tf->signature = n; return std::string(n) == "predict" ? &runner : nullptr; }
};
namespace ops { namespace builtin { struct BuiltinOpResolver {}; } }
struct InterpreterBuilder {
  InterpreterBuilder(const FlatBufferModel&, const ops::builtin::BuiltinOpResolver&) {}
  TfLiteStatus SetNumThreads(int) { return g_tf->threads ? kTfLiteOk : kTfLiteError; }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* i) { if (!g_tf->build) return kTfLiteError; *i = std::make_unique<Interpreter>(); return kTfLiteOk; }
};
}  // namespace tflite
