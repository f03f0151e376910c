// C03: batch lists; C23: command-line options
#include "h.h"
#include "files.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "commandline_parser.h"
using namespace Visqol;
ABSL_DECLARE_FLAG(std::string, reference_file);
ABSL_DECLARE_FLAG(std::string, degraded_file);
ABSL_DECLARE_FLAG(std::string, batch_input_csv);
ABSL_DECLARE_FLAG(std::string, results_csv);
ABSL_DECLARE_FLAG(bool, verbose);
ABSL_DECLARE_FLAG(std::string, output_debug);
ABSL_DECLARE_FLAG(std::string, similarity_to_quality_model);
ABSL_DECLARE_FLAG(bool, use_speech_mode);
ABSL_DECLARE_FLAG(bool, use_lattice_model);
ABSL_DECLARE_FLAG(bool, use_unscaled_speech_mos_mapping);
ABSL_DECLARE_FLAG(int, search_window_radius);
ABSL_DECLARE_FLAG(bool, disable_global_alignment);
ABSL_DECLARE_FLAG(bool, disable_realignment);
namespace {
// the pairs a list stands for; maybe: a comma but an empty name, may be kept or not
struct Want { std::string a, b; bool maybe; };
std::vector<Want> Pairs(const std::string& t) {
  std::vector<Want> r;
  size_t i = 0;
  bool first = true;
  while (i < t.size()) {
    size_t j = i;
    while (j < t.size() && t[j] != '\n') j++;
    size_t e = j;
    if (!first) {
      if (e > i && t[e - 1] == '\r') e--;
      size_t c = i;
      while (c < e && t[c] != ',') c++;
      if (c < e) {
        size_t d = c + 1;
        while (d < e && t[d] != ',') d++;
        r.push_back({t.substr(i, c - i), t.substr(c + 1, d - c - 1), c == i || d == c + 1});
      }
    }
    first = false;
    i = j + 1;
  }
  return r;
}
void Compare(const std::string& text) {
  PutFile("batch.csv", text);
  CommandLineArgs args;
  args.batch_input_csv = FilePath("batch.csv");
  const auto got = VisqolCommandLineParser::BuildFilePairPaths(args);
  size_t k = 0;
  for (auto& w : Pairs(text)) {
    const bool here = k < got.size() && got[k].reference.Path() == w.a && got[k].degraded.Path() == w.b;
    if (!w.maybe) vsx_assert(here, "each line naming two files gives the next pair, with those names");
    if (here) k++;
  }
  vsx_assert(k == got.size(), "no line gives more than one pair");
}
}  // namespace
ENTRY h_bytes() {
  const int n = vsx_param("n", 5);
  std::string t = "h\n";
  for (int i = 0; i < n; i++) t.push_back((char)vsx_u8("c"));
  Compare(t);
  vsx_reach("read");
}
ENTRY h_header() {
  const int n = vsx_param("n", 4);
  std::string t;
  for (int i = 0; i < n; i++) t.push_back((char)vsx_u8("c"));
  Compare(t);
  vsx_reach("read");
}
ENTRY h_lines() {
  const int lines = vsx_param("lines", 3);
  std::string t = "reference,degraded";
  const char* eol[] = {"\n", "\r\n"};
  t += eol[vsx_choose("eol", 2)];
  auto name = [&](int len) {
    for (int i = 0; i < len; i++) {
      const uint8_t c = vsx_u8("c");
      vsx_assume(vsx_and(vsx_and(c != '\n', c != '\r'), c != ','));
      t.push_back((char)c);
    }
  };
  for (int i = 0; i < lines; i++) {
    static const char* nm[] = {"line0", "line1", "line2", "line3"};
    switch (vsx_choose(nm[i], 6)) {
      case 0: name(1); t += ','; name(2); break;
      case 1: name(3); t += ','; name(1); break;
      case 2: break;                                    // blank
      case 3: name(2); break;                           // no comma
      case 4: name(1); t += ','; name(1); t += ','; name(1); break;
      case 5: name(1); t += ','; break;
    }
    if (i + 1 < lines || vsx_choose("terminated", 2)) t += eol[vsx_choose("eol", 2)];
  }
  Compare(t);
  vsx_reach("read");
}
// ---- C23
ENTRY h_parse() {
  // every path: absent, present or not given
  auto path = [&](const char* what, const char* name) -> std::string {
    const int k = vsx_choose(what, 3);
    if (k == 1) PutFile(name, "x");
    return k == 2 ? "" : name;
  };
  const bool speech = vsx_choose("speech", 2);
  const std::string batch = path("batch", "b.csv"), ref = path("reference", "r.wav"), deg = path("degraded", "d.wav"), model = path("model", "m.txt");
  const int dflt = vsx_choose("default_models", 4);
  PutDir("/cwd/model");
  if (dflt & 1) PutFile(std::string("/cwd") + kDefaultAudioModelFile, "x");
  if (dflt & 2) PutFile(std::string("/cwd") + kDefaultSpeechModelFile, "x");
  const bool verbose = vsx_u8("verbose") & 1, lattice = vsx_u8("lattice") & 1, unscaled = vsx_u8("unscaled") & 1, noalign = vsx_u8("noalign") & 1, noreal = vsx_u8("norealign") & 1;
  const int window = (int)vsx_u32("window");
  absl::SetFlag(&FLAGS_reference_file, ref); absl::SetFlag(&FLAGS_degraded_file, deg); absl::SetFlag(&FLAGS_batch_input_csv, batch);
  absl::SetFlag(&FLAGS_results_csv, std::string("out.csv")); absl::SetFlag(&FLAGS_output_debug, std::string("dbg.json"));
  absl::SetFlag(&FLAGS_similarity_to_quality_model, model);
  absl::SetFlag(&FLAGS_verbose, verbose); absl::SetFlag(&FLAGS_use_speech_mode, speech); absl::SetFlag(&FLAGS_use_lattice_model, lattice);
  absl::SetFlag(&FLAGS_use_unscaled_speech_mos_mapping, unscaled); absl::SetFlag(&FLAGS_search_window_radius, window);
  absl::SetFlag(&FLAGS_disable_global_alignment, noalign); absl::SetFlag(&FLAGS_disable_realignment, noreal);
  char prog[] = "visqol"; char* argv[] = {prog, nullptr};
  const auto r = VisqolCommandLineParser::Parse(1, argv);
  bool ok = batch.empty() ? !ref.empty() && HasFile(ref) && !deg.empty() && HasFile(deg) : HasFile(batch);
  if (!model.empty() && !speech) ok = ok && HasFile(model);
  std::string want = model;
  if (model.empty()) {
    want = Cwd() + (speech ? kDefaultSpeechModelFile : kDefaultAudioModelFile);
    ok = ok && (dflt & (speech ? 2 : 1));
  }
  vsx_assert(r.ok() == ok, "parsing succeeds exactly if the files the options require exist");
  if (!r.ok()) {
    vsx_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "a failure is an invalid-argument error");
    vsx_reach("rejected");
    return;
  }
  const CommandLineArgs& a = r.value();
  vsx_assert(a.similarity_to_quality_mapper_model.Path() == want, "the explicit model or the default of the mode is used");
  vsx_assert(a.batch_input_csv.Path() == batch && a.results_output_csv.Path() == "out.csv" && a.debug_output_path.Path() == "dbg.json", "paths are passed on");
  if (batch.empty()) vsx_assert(a.reference_signal_path.Path() == ref && a.degraded_signal_path.Path() == deg, "signal paths are passed on");
  vsx_assert(a.verbose == verbose, "verbose is passed on");
  vsx_assert(a.use_speech_mode == speech, "speech mode is passed on");
  vsx_assert(a.use_lattice_model == lattice, "lattice choice is passed on");
  vsx_assert(a.use_unscaled_speech_mos_mapping == unscaled, "unscaled mapping is passed on");
  vsx_assert(a.search_window_radius == window, "search radius is passed on");
  vsx_assert(a.disable_global_alignment == noalign, "alignment choice is passed on");
  vsx_assert(a.disable_realignment == noreal, "realignment choice is passed on");
  const auto pairs = VisqolCommandLineParser::BuildFilePairPaths(a);
  if (batch.empty()) vsx_assert(pairs.size() == 1 && pairs[0].reference.Path() == ref && pairs[0].degraded.Path() == deg, "without a list the pair is the two given files");
  else vsx_assert(pairs.empty(), "with a list the given names are ignored");
  vsx_reach("accepted");
}
// without options
ENTRY h_defaults() {
  PutFile("r.wav", "x"); PutFile("d.wav", "x"); PutDir("/cwd/model");
  PutFile(std::string("/cwd") + kDefaultAudioModelFile, "x");
  absl::SetFlag(&FLAGS_reference_file, std::string("r.wav")); absl::SetFlag(&FLAGS_degraded_file, std::string("d.wav"));
  char prog[] = "visqol"; char* argv[] = {prog, nullptr};
  const auto r = VisqolCommandLineParser::Parse(1, argv);
  vsx_assert(r.ok(), "two existing files are enough");
  const CommandLineArgs& a = r.value();
  vsx_assert(!a.verbose && !a.use_speech_mode && !a.use_unscaled_speech_mos_mapping && a.search_window_radius == 60 && !a.disable_global_alignment && !a.disable_realignment, "documented defaults");
  vsx_reach("defaults");
}
