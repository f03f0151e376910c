// The model libraries: any outcome of loading, any prediction, and a record of what they are given.
#pragma once
#include <cstdlib>
#include <string>
#include <vector>
#include <svm.h>
#include "tensorflow/lite/interpreter.h"
TfState* g_tf;
// ---- the support vector library: any model, any prediction
namespace {
struct Svm {
  bool load = true;
  std::string path;
  std::vector<svm_node> nodes;
  double answer = 0;
  int predicted = 0, frees = 0, trained = 0;
  svm_model* used = nullptr;
  std::vector<std::vector<svm_node>> rows;
  std::vector<double> y;
} *g_svm;
std::vector<svm_node> Nodes(const svm_node* n) {
  std::vector<svm_node> v;
  for (;; n++) { v.push_back(*n); if (n->index == -1 || v.size() > 40) break; }
  return v;
}
}  // namespace
extern "C" {
svm_model* svm_load_model(const char* f) { g_svm->path = f; return g_svm->load ? (svm_model*)calloc(1, sizeof(svm_model)) : nullptr; }
double svm_predict(const svm_model* m, const svm_node* x) { g_svm->used = (svm_model*)m; g_svm->nodes = Nodes(x); g_svm->predicted++; return g_svm->answer; }
svm_model* svm_train(const svm_problem* p, const svm_parameter*) {
  g_svm->trained++;
  for (int i = 0; i < p->l; i++) { g_svm->rows.push_back(Nodes(p->x[i])); g_svm->y.push_back(p->y[i]); }
  return (svm_model*)calloc(1, sizeof(svm_model));
}
void svm_free_model_content(svm_model* m) { m->l = 0; }
void svm_free_and_destroy_model(svm_model** m) { if (m && *m) { g_svm->frees++; free(*m); *m = nullptr; } }
}
