// C11 the programming interface: configuration and wrapping of signals
#include "h.h"
#include <climits>
#include "commandline_parser.h"
#include "visqol_api.h"
#include "files.h"
using namespace Visqol;
typedef AMatrix<double> M;
namespace {
struct World {
  int inits = 0, runs = 0;
  std::string model;
  bool speech, unscaled, lattice, noalign, norealign;
  int window;
  absl::Status init, run;
  AudioSignal ref, deg;
  SimilarityResultMsg answer;
} *g;
absl::Status Init(const std::string& m, bool speech, bool unscaled, int window, bool lattice, bool noalign, bool norealign) {
  g->inits++;
  g->model = m; g->speech = speech; g->unscaled = unscaled; g->window = window; g->lattice = lattice; g->noalign = noalign; g->norealign = norealign;
  return g->init;
}
bool Holds(const M& m, const std::vector<double>& v) {
  if (m.NumRows() != v.size() || m.NumCols() != 1) return false;
  int ok = 1;
  for (size_t i = 0; i < v.size(); i++) ok = vsx_and(ok, Same(m(i), v[i]));
  return ok != 0;
}
}  // namespace
// ---- stand-in: the engine
namespace Visqol {
absl::Status VisqolManager::Init(const FilePath& m, bool s, bool u, int w, bool l, bool a, bool r) { return ::Init(m.Path(), s, u, w, l, a, r); }
absl::Status VisqolManager::Init(absl::string_view m, bool s, bool u, int w, bool l, bool a, bool r) { return ::Init(std::string(m), s, u, w, l, a, r); }
absl::StatusOr<SimilarityResultMsg> VisqolManager::Run(const AudioSignal& ref, AudioSignal& deg) {
  g->runs++; g->ref = ref; g->deg = deg;
  if (!g->run.ok()) return g->run;
  return g->answer;
}
absl::StatusOr<SimilarityResultMsg> VisqolManager::Run(const FilePath&, const FilePath&) { vsx_assert(false, "signals are not read from files"); return g->answer; }
}  // namespace Visqol
namespace {
struct Options {
  bool audio, options, speech, unscaled, allow, lattice;
  int rate, radius;
  std::string model;
  bool ok() const { return audio && rate != 0 && (rate == 48000 || (options && (speech || allow))); }
};
Options Choose(VisqolConfig* c, bool rates) {
  Options o{};
  o.audio = vsx_choose("audio", 2);
  if (o.audio) {
    o.rate = rates ? (int)vsx_u32("rate") : 48000;
    c->mutable_audio()->set_sample_rate(o.rate);
  }
  o.options = vsx_choose("options", 2);
  if (o.options) {
    o.speech = vsx_u8("speech") & 1; o.unscaled = vsx_u8("unscaled") & 1; o.allow = vsx_u8("allow") & 1; o.lattice = vsx_u8("lattice") & 1;
    o.radius = (int)vsx_u32("radius");
    if (vsx_choose("model", 2)) o.model = "some/model";
    auto* p = c->mutable_options();
    p->set_use_speech_scoring(o.speech); p->set_use_unscaled_speech_mos_mapping(o.unscaled); p->set_allow_unsupported_sample_rates(o.allow); p->set_use_lattice_model(o.lattice);
    p->set_search_window_radius(o.radius); p->set_svr_model_path(o.model);
    // fields that are documented as not supported change nothing
    p->set_output_mos_score(vsx_u8("mos") & 1); p->set_detect_voice_activity(vsx_u8("vad") & 1);
  }
  return o;
}
void Initialised(const Options& o) {
  vsx_assert(g->inits == 1, "the engine is initialised exactly once");
  vsx_assert(g->speech == (o.options && o.speech), "speech mode");
  vsx_assert(g->unscaled == (o.options && o.unscaled), "unscaled mapping");
  vsx_assert(g->lattice == (!o.options || o.lattice), "lattice choice");
  vsx_assert(g->window == (o.options && o.radius != 0 ? o.radius : 60), "search radius, 60 by default");
  vsx_assert(!g->noalign && !g->norealign, "alignment is on");
  if (!o.model.empty()) vsx_assert(g->model == o.model, "the given model");
  else vsx_assert(g->model == Cwd() + (o.options && o.speech ? kDefaultSpeechModelFile : kDefaultAudioModelFile), "the default model of the mode");
}
}  // namespace
ENTRY h_create() {
  g = new World;
  VisqolConfig c;
  const Options o = Choose(&c, true);
  const bool fails = vsx_choose("init_fails", 2);
  if (fails) g->init = absl::UnknownError("no model");
  VisqolApi api;
  const absl::Status s = api.Create(c);
  if (!o.ok()) {
    vsx_assert(!s.ok() && s.code() == absl::StatusCode::kInvalidArgument, "an unacceptable configuration is an invalid argument");
    vsx_assert(g->inits == 0, "nothing is initialised for it");
    vsx_reach("rejected");
    return;
  }
  Initialised(o);
  if (fails) { vsx_assert(!s.ok() && s.code() == absl::StatusCode::kUnknown, "a failure of the engine is returned"); vsx_reach("engine failed"); return; }
  vsx_assert(s.ok(), "created");
  vsx_reach("created");
}
ENTRY h_measure() {
  g = new World;
  VisqolConfig c;
  const int rate = (int)vsx_u32("rate");
  vsx_assume(rate > 0);
  c.mutable_audio()->set_sample_rate(rate);
  c.mutable_options()->set_allow_unsupported_sample_rates(true);
  VisqolApi api;
  vsx_assert(api.Create(c).ok(), "created");
  for (int k = 0; k < 2; k++) {
    std::vector<double> x = SymVec("ref", vsx_choose("ref_len", 3)), y = SymVec("deg", vsx_choose("deg_len", 3)), x0 = x, y0 = y;
    g->answer.set_moslqo(vsx_f64("moslqo"));
    g->run = vsx_choose("fails", 2) ? absl::InternalError("failed") : absl::OkStatus();
    g->runs = 0;
    const auto r = api.Measure(absl::Span<double>(x), absl::Span<double>(y));
    vsx_assert(g->runs == 1, "one comparison");
    vsx_assert(Holds(g->ref.data_matrix, x0) && Holds(g->deg.data_matrix, y0), "both buffers reach the engine unchanged, as one channel");
    vsx_assert(g->ref.sample_rate == (size_t)rate && g->deg.sample_rate == (size_t)rate, "at the configured rate");
    for (size_t i = 0; i < x.size(); i++) vsx_assert(Same(x[i], x0[i]), "the reference buffer is not modified");
    for (size_t i = 0; i < y.size(); i++) vsx_assert(Same(y[i], y0[i]), "the degraded buffer is not modified");
    if (!g->run.ok()) vsx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "an error is returned");
    else vsx_assert(r.ok() && Same(r.value().moslqo(), g->answer.moslqo()), "the result is returned");
  }
  vsx_reach("measured");
}
// creating again
ENTRY h_again() {
  g = new World;
  VisqolApi api;
  for (int k = 0; k < 2; k++) {
    VisqolConfig c;
    const Options o = Choose(&c, false);
    g->inits = 0;
    const absl::Status s = api.Create(c);
    vsx_assert(s.ok() == o.ok(), "accepted as by a fresh object");
    if (o.ok()) Initialised(o);
  }
  vsx_reach("again");
}
