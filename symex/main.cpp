#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "exec.h"
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
int main(int argc, char** argv) {
  std::string bc, entry, out;
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) entry = val("--entry=");
    else if (a.rfind("--out=", 0) == 0) out = val("--out=");
    else if (a.rfind("--mode=", 0) == 0) { auto m = val("--mode="); g_mode = m == "real" ? MReal : m == "uf" ? MUF : MExact; }
    else if (a.rfind("--time=", 0) == 0) o.timeLimit = atof(val("--time=").c_str());
    else if (a.rfind("--steps=", 0) == 0) o.maxSteps = atoll(val("--steps=").c_str());
    else if (a.rfind("--paths=", 0) == 0) o.maxPaths = atoll(val("--paths=").c_str());
    else if (a.rfind("--maxalloc=", 0) == 0) o.maxAlloc = atoll(val("--maxalloc=").c_str());
    else if (a.rfind("--qt=", 0) == 0) g_qtimeout = atoi(val("--qt=").c_str());
    else if (a.rfind("--samples=", 0) == 0) o.samples = atoi(val("--samples=").c_str());
    else if (a.rfind("--itecap=", 0) == 0) o.iteCap = atoi(val("--itecap=").c_str());
    else if (a == "--nofptoint") o.checkFpToInt = false;
    else if (a == "--oomdrop") o.oomDrop = true;
    else if (a == "--oneshot") g_oneshotFirst = true;
    else if (a.rfind("--p:", 0) == 0) { auto s = val("--p:"); auto q = s.rfind('='); o.params[s.substr(0, q)] = s.substr(q + 1); }
    else bc = a;
  }
  Program* P = new Program();
  std::string err;
  if (!loadProgram(bc, *P, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 3; }
  Ex X(*P);
  X.opt = o;
  X.Z = newSolver();
  registerBuiltins(X);
  X.explore(entry);
  std::ostringstream J;
  J << "{\n \"entry\": " << js(entry) << ", \"mode\": \"" << (g_mode == MReal ? "real" : g_mode == MUF ? "uf" : "exact") << "\",\n";
  J << " \"paths\": " << X.paths << ", \"paths_error\": " << X.pathsErr << ", \"paths_assumed_away\": " << X.pathsAssumed << ", \"paths_limit\": " << X.pathsLimit << ", \"paths_unsupported\": " << X.pathsUnsup << ",\n";
  J << " \"timed_out\": " << (X.timedOut ? "true" : "false") << ", \"forks\": " << X.forks << ", \"instructions\": " << X.steps << ", \"asserts\": " << X.asserts << ", \"asserts_proved\": " << X.assertsProved << ", \"asserts_concrete\": " << X.assertsConcrete << ", \"real_excluded\": " << X.realExcluded << ",\n";
  J << " \"queries\": " << g_ss.queries << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown << ", \"oneshot\": " << g_ss.oneshot << ", \"solver_seconds\": " << g_ss.time << ", \"max_query_seconds\": " << g_ss.maxq << ", \"seconds\": " << X.elapsed() << ", \"exprs\": " << g_nexprs << ",\n";
  auto mp = [&](const char* n, auto& m) {
    J << " \"" << n << "\": {";
    bool f = true;
    for (auto& p : m) { J << (f ? "" : ", ") << js(p.first) << ": " << p.second; f = false; }
    J << "},\n";
  };
  mp("unsupported", X.unsup);
  mp("unknown_asserts", X.unknown);
  mp("reach", X.reachCount);
  std::map<std::string, uint64_t> fns;
  for (auto& f : P->f) if (f.hits && f.visqol) fns[f.pretty] = f.hits;
  mp("functions", fns);
  auto ins = [&](const std::vector<std::pair<std::string, std::string>>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? ", [" : "[") + js(v[i].first) + ", " + js(v[i].second) + "]";
    return r + "]";
  };
  J << " \"violations\": [";
  for (size_t i = 0; i < X.viol.size(); i++) {
    auto& v = X.viol[i];
    J << (i ? ",\n  " : "\n  ") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"loc\": " << js(v.loc) << ", \"stack\": " << js(v.stack) << ", \"inputs\": " << ins(v.inputs) << "}";
  }
  J << "],\n \"samples\": [";
  for (size_t i = 0; i < X.samples.size(); i++) {
    J << (i ? ",\n  " : "\n  ") << "{\"inputs\": " << ins(X.samples[i]) << ", \"reach\": [";
    for (size_t k = 0; k < X.sampleReach[i].size(); k++) J << (k ? ", " : "") << js(X.sampleReach[i][k]);
    J << "]}";
  }
  J << "]\n}\n";
  if (out.empty()) std::cout << J.str();
  else { std::ofstream f(out); f << J.str(); }
  std::cout.flush();
  _exit(0);
}
