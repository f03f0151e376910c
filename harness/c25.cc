// C25 the program: batches, outputs and exit status
#include "h.h"
#include "commandline_parser.h"
#include "visqol_manager.h"
#include "files.h"
#include "csv.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, reference_file);
ABSL_DECLARE_FLAG(std::string, degraded_file);
ABSL_DECLARE_FLAG(std::string, batch_input_csv);
ABSL_DECLARE_FLAG(std::string, results_csv);
ABSL_DECLARE_FLAG(std::string, output_debug);
ABSL_DECLARE_FLAG(std::string, similarity_to_quality_model);
ABSL_DECLARE_FLAG(bool, verbose);
ABSL_DECLARE_FLAG(bool, use_speech_mode);
ABSL_DECLARE_FLAG(bool, use_lattice_model);
ABSL_DECLARE_FLAG(bool, use_unscaled_speech_mos_mapping);
ABSL_DECLARE_FLAG(int, search_window_radius);
ABSL_DECLARE_FLAG(bool, disable_global_alignment);
ABSL_DECLARE_FLAG(bool, disable_realignment);
using namespace Visqol;
int visqol_main(int argc, char** argv);
namespace {
struct World {
  int inits = 0;
  std::string model;
  bool speech, unscaled, lattice, noalign, norealign;
  int window;
  bool init_ok = true;
  std::vector<std::string> refs, degs;      // the pairs that were compared
  std::vector<int> outcome;                 // of each comparison
  std::vector<double> score;
} *g;
absl::Status Init(const std::string& m, bool speech, bool unscaled, int window, bool lattice, bool noalign, bool norealign) {
  g->inits++;
  g->model = m; g->speech = speech; g->unscaled = unscaled; g->window = window; g->lattice = lattice; g->noalign = noalign; g->norealign = norealign;
  return g->init_ok ? absl::OkStatus() : absl::UnknownError("no model");
}
enum { kFine, kInvalid, kInternal, kAborted };
}  // namespace
// ---- stand-in: the engine
namespace Visqol {
absl::Status VisqolManager::Init(const FilePath& m, bool s, bool u, int w, bool l, bool a, bool r) { return ::Init(m.Path(), s, u, w, l, a, r); }
absl::Status VisqolManager::Init(absl::string_view m, bool s, bool u, int w, bool l, bool a, bool r) { return ::Init(std::string(m), s, u, w, l, a, r); }
absl::StatusOr<SimilarityResultMsg> VisqolManager::Run(const FilePath& ref, const FilePath& deg) {
  vsx_assert(g->inits == 1 && g->init_ok, "files are compared by an initialised engine");
  const size_t k = g->refs.size();
  g->refs.push_back(ref.Path()); g->degs.push_back(deg.Path());
  vsx_assert(k < g->outcome.size(), "no pair is compared twice");
  switch (g->outcome[k]) {
    case kInvalid: return absl::InvalidArgumentError("rates differ");
    case kInternal: return absl::InternalError("failed");
    case kAborted: return absl::AbortedError("not initialised");
  }
  SimilarityResultMsg m;
  m.set_moslqo(g->score[k]);
  m.add_fvnsim(0.5); m.add_fvnsim10(0.25); m.add_fstdnsim(0.125); m.add_fvdegenergy(2); m.add_center_freq_bands(100);
  m.set_reference_filepath(ref.Path()); m.set_degraded_filepath(deg.Path());
  return m;
}
absl::StatusOr<SimilarityResultMsg> VisqolManager::Run(const AudioSignal&, AudioSignal&) { vsx_assert(false, "files are compared"); return absl::InternalError(""); }
}  // namespace Visqol
ENTRY h_batch() {
  g = new World;
  const int n = vsx_choose("pairs", vsx_param("pairs", 3) + 1);
  const bool list = n != 1 || vsx_choose("list", 2);
  const bool csv = vsx_choose("csv", 2), debug = vsx_choose("debug", 2);
  std::string text = "reference,degraded\n", ref[8], deg[8];
  for (int i = 0; i < n; i++) {
    ref[i] = "r" + std::to_string(i) + ".wav"; deg[i] = "d" + std::to_string(i) + ".wav";
    if (!list) { PutFile(ref[i], "x"); PutFile(deg[i], "x"); }
    text += ref[i] + "," + deg[i] + "\n";
    g->outcome.push_back(vsx_choose(("outcome" + std::to_string(i)).c_str(), 4));
    g->score.push_back(vsx_f64("score"));
  }
  if (list) { PutFile("batch.csv", text); absl::SetFlag(&FLAGS_batch_input_csv, std::string("batch.csv")); }
  else { absl::SetFlag(&FLAGS_reference_file, ref[0]); absl::SetFlag(&FLAGS_degraded_file, deg[0]); }
  PutFile("model", "x");
  absl::SetFlag(&FLAGS_similarity_to_quality_model, std::string("model"));
  absl::SetFlag(&FLAGS_results_csv, std::string(csv ? "out.csv" : "")); absl::SetFlag(&FLAGS_output_debug, std::string(debug ? "out.json" : ""));
  absl::SetFlag(&FLAGS_verbose, (bool)vsx_param("verbose", 0));
  char prog[] = "visqol"; char* argv[] = {prog, nullptr};
  const int rc = visqol_main(1, argv);
  vsx_assert(rc == 0, "a batch ends with success whatever its comparisons do");
  int done = 0;
  while (done < n && g->outcome[done] != kAborted) done++;
  const int tried = std::min(done + 1, n);
  vsx_assert((int)g->refs.size() == tried, "every pair is compared, until the engine says it is not initialised");
  for (int i = 0; i < tried; i++) vsx_assert(g->refs[i] == ref[i] && g->degs[i] == deg[i], "in the order of the list");
  std::vector<int> good;
  for (int i = 0; i < done; i++) if (g->outcome[i] == kFine) good.push_back(i);
  vsx_assert(HasFile("out.csv") == (csv && !good.empty()), "a table exactly if there is a result and it was asked for");
  if (csv && !good.empty()) {
    bool ok;
    const auto rows = Csv(GetFile("out.csv"), &ok);
    vsx_assert(ok && rows.size() == good.size() + 1, "one row for each pair that succeeds");
    for (size_t i = 0; i < good.size(); i++) {
      const Row& r = rows[i + 1];
      vsx_assert(r.size() == 7 && r[0] == ref[good[i]] && r[1] == deg[good[i]] && Carries(r[2], g->score[good[i]]), "with its names and score");
    }
  }
  const std::string json = debug ? GetFile("out.json") : "";
  size_t pos = 0, count = 0;
  for (; (pos = json.find("d", pos)) != std::string::npos; pos++) if (json.compare(pos + 2, 4, ".wav") == 0) { vsx_assert(count < good.size() && json[pos + 1] == '0' + good[count], "details in order"); count++; }
  vsx_assert(count == (debug ? good.size() : 0), "the details of each pair that succeeds");
  vsx_assert(HasFile("out.json") == (debug && !good.empty()), "details exactly if there is a result and they were asked for");
  vsx_reach(good.empty() ? "nothing written" : (int)good.size() < n ? "some failed" : "all written");
}
ENTRY h_start() {
  g = new World;
  g->init_ok = vsx_choose("init", 2);
  const int files = vsx_choose("files", 4);
  const bool model = vsx_choose("model", 2);
  if (files & 1) PutFile("r.wav", "x");
  if (files & 2) PutFile("d.wav", "x");
  if (model) PutFile("the.model", "x");
  const bool speech = vsx_choose("speech", 2), unscaled = vsx_u8("unscaled") & 1, lattice = vsx_u8("lattice") & 1, noalign = vsx_u8("noalign") & 1, norealign = vsx_u8("norealign") & 1;
  const int window = (int)vsx_u32("window");
  absl::SetFlag(&FLAGS_reference_file, std::string("r.wav")); absl::SetFlag(&FLAGS_degraded_file, std::string("d.wav"));
  absl::SetFlag(&FLAGS_similarity_to_quality_model, std::string("the.model")); absl::SetFlag(&FLAGS_results_csv, std::string("out.csv"));
  absl::SetFlag(&FLAGS_use_speech_mode, speech); absl::SetFlag(&FLAGS_use_lattice_model, lattice); absl::SetFlag(&FLAGS_use_unscaled_speech_mos_mapping, unscaled);
  absl::SetFlag(&FLAGS_search_window_radius, window); absl::SetFlag(&FLAGS_disable_global_alignment, noalign); absl::SetFlag(&FLAGS_disable_realignment, norealign);
  g->outcome.push_back(kFine); g->score.push_back(4.5);
  char prog[] = "visqol"; char* argv[] = {prog, nullptr};
  const int rc = visqol_main(1, argv);
  if (files != 3 || (!model && !speech)) {
    vsx_assert((rc & 255) != 0 && g->inits == 0 && g->refs.empty() && !HasFile("out.csv"), "invalid options: an error, nothing processed");
    vsx_reach("invalid");
    return;
  }
  vsx_assert(g->inits == 1 && g->model == "the.model", "the engine is initialised once with the model");
  vsx_assert(g->speech == speech, "speech mode");
  vsx_assert(g->unscaled == unscaled, "unscaled mapping");
  vsx_assert(g->lattice == lattice, "lattice choice");
  vsx_assert(g->window == window, "search radius");
  vsx_assert(g->noalign == noalign, "global alignment");
  vsx_assert(g->norealign == norealign, "realignment");
  if (!g->init_ok) {
    vsx_assert((rc & 255) != 0 && g->refs.empty() && !HasFile("out.csv"), "failed initialisation: an error, nothing processed");
    vsx_reach("not initialised");
    return;
  }
  vsx_assert(rc == 0 && g->refs.size() == 1 && HasFile("out.csv"), "processed");
  vsx_reach("processed");
}
