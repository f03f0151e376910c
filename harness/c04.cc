// C04 quality mappings, C20 feature vectors given to the models
#include "h.h"
#include <cstdlib>
#include <cstring>
#include "speech_similarity_to_quality_mapper.h"
#include "support_vector_regression_model.h"
#include "libsvm_target_observation_convertor.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "training_data_file_reader.h"
#include "files.h"
#include "models.h"
using namespace Visqol;
namespace {
bool Features(const std::vector<svm_node>& v, const std::vector<double>& x) {
  if (v.size() != x.size() + 1 || v.back().index != -1) return false;
  int ok = 1;
  for (size_t i = 0; i < x.size(); i++) { if (v[i].index != (int)i + 1) return false; ok = vsx_and(ok, Same(v[i].value, x[i])); }
  return ok != 0;
}
}  // namespace
// ---- C04
ENTRY h_speech() {
  const int n = vsx_param("n", 2);
  const bool scale = vsx_choose("scale", 2);
  SpeechSimilarityToQualityMapper m(scale);
  const auto z = [&] { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vsx_range("other", -1e6, 1e6)); return v; };
  std::vector<double> a;
  for (int i = 0; i < n; i++) a.push_back(vsx_range("sim", -1e6, 1e6));
  const double q = m.PredictQuality(a, z(), z(), z());
  vsx_assert(vsx_and(q >= 1, q <= 5), "a score between 1 and 5");
  // only the mean matters, and a higher mean never lowers the score
  double sum = 0;
  for (double x : a) sum += x;
  vsx_assert(m.PredictQuality({sum / n}, z(), z(), z()) == q, "only the mean similarity matters");
  std::vector<double> b = a;
  const int k = vsx_choose("raise", n);
  b[k] = vsx_range("raised", -1e6, 1e6);
  vsx_assume(b[k] >= a[k]);
  const double r = m.PredictQuality(b, z(), z(), z());
  vsx_assert(r >= q, "the score never drops when a band similarity rises");
  vsx_reach("scored");
}
// exact arithmetic of one band: no number escapes the range, not even infinities
ENTRY h_speech_range() {
  const bool scale = vsx_choose("scale", 2);
  SpeechSimilarityToQualityMapper m(scale);
  const double s = vsx_range("sim", -INFINITY, INFINITY);
  const double q = m.PredictQuality({s}, {s}, {s}, {s});
  vsx_assert(vsx_and(q >= 1, q <= 5), "a score between 1 and 5");
  vsx_reach("scored");
}
ENTRY h_speech_mean() {
  const int n = 1 + vsx_choose("bands", 32);
  const bool scale = vsx_choose("scale", 2);
  SpeechSimilarityToQualityMapper m(scale);
  const std::vector<double> o(n, 0.25);
  const double q = m.PredictQuality(std::vector<double>(n, 1.0), o, o, o);
  vsx_assert(scale ? std::fabs(q - 5.0) < 1e-6 : q > 4.01 && q < 4.03, "perfect similarity: 5.0 scaled, about 4.02 unscaled");
  // documented curve, at fixed means
  for (double s : {0.0, 0.3, 0.5, 0.7, 0.9}) {
    const double want = std::exp(0.0154302525 * (s + 361.063949)) - 262.847869;
    std::vector<double> v(n, s);
    if (n > 1) { v[0] += 0.0625; v[n - 1] -= 0.0625; }
    const double g = m.PredictQuality(v, o, o, o), w = std::min(5., std::max(1., want * (scale ? 1.245063 : 1)));
    vsx_assert(std::fabs(g - w) < 1e-5, "the score is the fitted curve of the mean similarity");
  }
  vsx_reach("perfect");
}
ENTRY h_svr() {
  g_svm = new Svm;
  SvrSimilarityToQualityMapper m{FilePath("model")};
  if (!m.Init().ok()) return;
  const std::vector<double> o{1.0};
  g_svm->answer = vsx_f64("prediction");      // NaN and infinities included
  const std::vector<double> x = SymVec("feature", 2);
  const double q = m.PredictQuality(x, o, o, o);
  vsx_assert(vsx_and(q >= 1, q <= 5), "a score between 1 and 5");
  if (g_svm->answer >= 1 && g_svm->answer <= 5) { vsx_assert(Same(q, g_svm->answer), "a prediction in range is the score"); vsx_reach("in range"); }
  else if (g_svm->answer < 1) { vsx_assert(q == 1, "a prediction below 1 scores 1"); vsx_reach("below"); }
  else if (g_svm->answer > 5) { vsx_assert(q == 5, "a prediction above 5 scores 5"); vsx_reach("above"); }
  vsx_assert(Features(g_svm->nodes, x), "the model sees exactly the similarity vector");
}
// ---- C20
ENTRY h_svm_predict() {
  g_svm = new Svm;
  const int n = vsx_choose("features", vsx_param("features", 6) + 1);
  {
    SupportVectorRegressionModel m;
    vsx_assert(m.Init(FilePath("some/model.txt")).ok() && g_svm->path == "some/model.txt", "the named model is loaded");
    for (int k = 0; k < 2; k++) {
      const std::vector<double> x = SymVec("feature", n);
      g_svm->answer = vsx_f64("answer");
      const double p = m.Predict(x);
      vsx_assert(Features(g_svm->nodes, x), "indices 1..n in order, unmodified values, end marker");
      vsx_assert(Same(p, g_svm->answer) && g_svm->predicted == k + 1 && g_svm->used != nullptr, "the model's output is returned");
    }
  }
  vsx_assert(g_svm->frees == 1, "the model is freed once");
  vsx_reach("predicted");
}
ENTRY h_svm_load() {
  g_svm = new Svm;
  g_svm->load = vsx_choose("load", 2);
  const int how = vsx_choose("how", 3);
  {
    SupportVectorRegressionModel m;
    SvrSimilarityToQualityMapper q{FilePath("m")};
    if (how == 1) vsx_assert(m.Init(FilePath("m")).ok() == g_svm->load, "a model that cannot be loaded is an error");
    if (how == 2) vsx_assert(q.Init().ok() == g_svm->load, "a model that cannot be loaded is an error");
  }
  vsx_assert(g_svm->frees == (how && g_svm->load), "only a loaded model is freed");
  vsx_reach(how == 0 ? "never initialised" : g_svm->load ? "loaded" : "failed");
}
ENTRY h_svm_train() {
  g_svm = new Svm;
  const int n = vsx_choose("features", 4), rows = 1 + vsx_choose("rows", 3);
  std::vector<std::vector<double>> x;
  std::vector<double> y;
  for (int i = 0; i < rows; i++) { x.push_back(SymVec("feature", n)); y.push_back(vsx_f64("target")); }
  {
    SupportVectorRegressionModel m;
    m.Init(x, y);
    vsx_assert(g_svm->trained == 1 && (int)g_svm->rows.size() == rows, "one observation per row");
    for (int i = 0; i < rows; i++) vsx_assert(Features(g_svm->rows[i], x[i]) && Same(g_svm->y[i], y[i]), "rows are converted in order with their targets");
    const std::vector<double> p = SymVec("probe", n);
    m.Predict(p);
    vsx_assert(Features(g_svm->nodes, p), "a prediction after training");
  }
  vsx_assert(g_svm->frees == 1, "the model is freed once");
  vsx_reach("trained");
}
ENTRY h_lattice() {
  g_tf = new TfState;
  const int n = 1 + vsx_choose("bands", vsx_param("bands", 3));
  const char* names[] = {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"};
  const auto add = [](const std::string& s) { g_tf->in.push_back({s, -99.0f}); g_tf->tensors.push_back(new TfLiteTensor); };
  add("tau");
  for (int f = 3; f >= 0; f--) for (int i = 0; i < n; i++) add(names[f] + std::to_string(i));
  TFLiteQualityMapper m("a/model.tflite", n);
  vsx_assert(m.Init().ok() && g_tf->path == "a/model.tflite", "the named model is loaded");
  for (int k = 0; k < 2; k++) {
    std::vector<double> x[4];
    for (auto& v : x) for (int i = 0; i < n; i++) v.push_back(vsx_range("feature", -1e6, 1e6));
    g_tf->out = vsx_f32("answer");
    g_tf->invoked = 0;
    const double p = m.PredictQuality(x[0], x[1], x[2], x[3]);
    vsx_assert(g_tf->invoked == 1 && g_tf->signature == "predict", "the model runs once");
    const auto& got = g_tf->at_invoke;
    vsx_assert(got[0] == 0.5f, "the tau feature");

    for (int f = 0; f < 4; f++)
      for (int i = 0; i < n; i++)
        vsx_assert(got[1 + (3 - f) * n + i] == (float)x[f][i], "each feature reaches the tensor of its name and band");
    vsx_assert(Same(p, (double)g_tf->out), "the model's output is returned");
  }
  vsx_reach("predicted");
}
ENTRY h_lattice_init() {
  g_tf = new TfState;
  g_tf->load = vsx_choose("load", 2); g_tf->threads = vsx_choose("threads", 2); g_tf->build = vsx_choose("build", 2); g_tf->alloc = vsx_choose("alloc", 2);
  g_tf->delegate = vsx_choose("delegate", 3);
  bool ok;
  {
    TFLiteQualityMapper m("m", 1);
    ok = m.Init().ok();
  }
  vsx_assert(ok == (g_tf->load && g_tf->threads && g_tf->build && g_tf->alloc && g_tf->delegate != kTfLiteError), "a model that cannot be prepared is an error");
  vsx_reach(ok ? "ready" : "failed");
}
