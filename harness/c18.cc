// C18 the files results are written to
#include "h.h"
#include <cmath>
#include "sim_results_writer.h"
#include "files.h"
#include "csv.h"
using namespace Visqol;
namespace {
std::string Name(const char* n, int k) {
  std::string s = "f";
  for (int i = 0; i < k; i++) { const char c = (char)vsx_u8(n); vsx_assume(c != 0); s += c; }
  return s;
}
double Number(const char* n, int i) {
  static const double some[] = {1.234567891e-7, 123456.789012, -3.0000001, 0.987654321987, 5};
  return vsx_param("concrete", 0) ? some[i % 5] : vsx_f64(n);
}
SimilarityResultMsg Message(int lens, const std::string& ref, const std::string& deg) {
  SimilarityResultMsg m;
  m.set_reference_filepath(ref); m.set_degraded_filepath(deg);
  m.set_moslqo(Number("moslqo", 3)); m.set_vnsim(Number("vnsim", 2)); m.set_alignment_lag_s(Number("lag", 1));
  const int n[] = {lens % 3, lens / 3 % 3, lens / 9 % 3, lens / 27 % 3};
  for (int i = 0; i < n[0]; i++) { m.add_fvnsim(Number("fvnsim", i)); m.add_center_freq_bands(Number("freq", i)); }
  for (int i = 0; i < n[1]; i++) m.add_fvnsim10(Number("fvnsim10", i + 1));
  for (int i = 0; i < n[2]; i++) m.add_fstdnsim(Number("fstdnsim", i + 2));
  for (int i = 0; i < n[3]; i++) m.add_fvdegenergy(Number("fvdegenergy", i + 3));
  return m;
}
void CheckHeader(const Row& r, const SimilarityResultMsg& m) {
  Row want{"reference", "degraded", "moslqo"};
  for (int i = 0; i < m.fvnsim_size(); i++) want.push_back("fvnsim" + std::to_string(i));
  for (int i = 0; i < m.fvnsim10_size(); i++) want.push_back("fvnsim10_" + std::to_string(i));
  for (int i = 0; i < m.fstdnsim_size(); i++) want.push_back("fstdnsim" + std::to_string(i));
  for (int i = 0; i < m.fvdegenergy_size(); i++) want.push_back("fvdegenergy" + std::to_string(i));
  vsx_assert(r == want, "the header names every column in order");
}
void CheckRow(const Row& r, const SimilarityResultMsg& m) {
  vsx_assert((int)r.size() == 3 + m.fvnsim_size() + m.fvnsim10_size() + m.fstdnsim_size() + m.fvdegenergy_size(), "a row has exactly as many fields as the header");
  vsx_assert(r[0] == m.reference_filepath() && r[1] == m.degraded_filepath(), "the row names the files");
  size_t k = 2;
  vsx_assert(Carries(r[k++], m.moslqo()), "the score");
  for (int i = 0; i < m.fvnsim_size(); i++) vsx_assert(Carries(r[k++], m.fvnsim(i)), "mean similarities");
  for (int i = 0; i < m.fvnsim10_size(); i++) vsx_assert(Carries(r[k++], m.fvnsim10(i)), "decile similarities");
  for (int i = 0; i < m.fstdnsim_size(); i++) vsx_assert(Carries(r[k++], m.fstdnsim(i)), "deviations");
  for (int i = 0; i < m.fvdegenergy_size(); i++) vsx_assert(Carries(r[k++], m.fvdegenergy(i)), "degraded energies");
}
void CheckFile(const std::string& before, bool existed, const std::vector<SimilarityResultMsg>& ms) {
  const std::string t = GetFile("out.csv");
  vsx_assert(t.size() >= before.size() && t.compare(0, before.size(), before) == 0, "earlier contents are kept");
  bool ok;
  const auto rows = Csv(t.substr(before.size()), &ok);
  vsx_assert(ok, "a comma separated file");
  vsx_assert(rows.size() == ms.size() + !existed, "one row per result, and a header only in a new file");
  if (!existed) CheckHeader(rows[0], ms[0]);
  for (size_t i = 0; i < ms.size(); i++) CheckRow(rows[i + !existed], ms[i]);
}
std::string Existing(bool* existed) {
  const int k = vsx_choose("file", 3);
  std::string t;
  *existed = k > 0;
  if (k == 2) t = "reference,degraded,moslqo\na,b,1\n";
  if (k) PutFile("out.csv", t);
  return t;
}
}  // namespace
ENTRY h_csv() {
  bool existed;
  const std::string before = Existing(&existed);
  const int lens = vsx_choose("lengths", 81);
  std::vector<SimilarityResultMsg> ms;
  for (int k = 0; k < 2; k++) {
    ms.push_back(Message(lens, "r" + std::to_string(k), "d"));
    SimilarityResultsWriter::Write(false, FilePath("out.csv"), FilePath(), ms[k], true, true);
  }
  CheckFile(before, existed, ms);
  vsx_reach(existed ? "appended" : "created");
}
ENTRY h_names() {
  bool existed;
  const std::string before = Existing(&existed);
  const int n = vsx_param("n", 2), which = vsx_choose("which", 2);
  const std::string ref = Name("ref", which ? 0 : n), deg = Name("deg", which ? n : 0);
  std::vector<SimilarityResultMsg> ms{Message(2, ref, deg), Message(2, deg, "x")};
  for (const auto& m : ms) SimilarityResultsWriter::Write(false, FilePath("out.csv"), FilePath(), m, true, true);
  CheckFile(before, existed, ms);
  vsx_reach("named");
}
// which outputs are written
ENTRY h_outputs() {
  const bool verbose = vsx_choose("verbose", 2), csv = vsx_choose("csv", 2), debug = vsx_choose("debug", 2), speech = vsx_choose("speech", 2), lattice = vsx_choose("lattice", 2);
  const bool existed = vsx_choose("existing", 2);
  const std::string before = existed ? "{\"earlier\":1}" : "";
  if (existed) PutFile("out.json", before);
  const int patches = vsx_choose("patches", 3);
  std::string want = before;
  std::vector<SimilarityResultMsg> ms;
  for (int k = 0; k < 2; k++) {
    SimilarityResultMsg m = Message(2 + 3 * 2 + 9 + 27 * 2, "r" + std::to_string(k), "d");
    for (int i = 0; i < patches; i++) { auto* p = m.add_patch_sims(); p->set_similarity(Number("similarity", i)); p->set_ref_patch_start_time(Number("start", i)); p->add_freq_band_means(Number("bm", i)); }
    SimilarityResultsWriter::Write(verbose, FilePath(csv ? "out.csv" : ""), FilePath(debug ? "out.json" : ""), m, speech, lattice);
    ms.push_back(m);
    std::string j;
    vsx_assert(google::protobuf::util::MessageToJsonString(m, &j).ok(), "text of the message");
    want += j;
  }
  vsx_assert(HasFile("out.csv") == csv, "the table is written exactly when asked for");
  if (csv) CheckFile("", false, ms);
  vsx_assert(HasFile("out.json") == (debug || existed), "the details are written exactly when asked for");
  const std::string got = GetFile("out.json");
  if (!debug) vsx_assert(got == before, "nothing else is touched");
  else {
    // any spacing between the texts
    std::string a, b;
    for (char c : got) if (c != '\n') a += c;
    for (char c : want) if (c != '\n') b += c;
    vsx_assert(a == b, "the complete message of every result is appended");
  }
  vsx_reach("written");
}
