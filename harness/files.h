// files for the code under test: the virtual table in the encoding, real files
// in the scratch directory natively
#pragma once
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/stat.h>
#ifdef VSX_IR
#include "../rt/vfs.h"
extern "C" VFile* vfs_find(const char*, int);
inline void PutFile(const std::string& name, const std::string& text) {
  VFile* f = vfs_find(name.c_str(), 1);
  char* d = new char[text.size() + 1];
  memcpy(d, text.data(), text.size());
  f->data = d; f->n = text.size(); f->on = 0;
}
inline void PutDir(const std::string& name) { vfs_find(name.c_str(), 1)->state = 2; }
inline bool HasFile(const std::string& name) { VFile* f = vfs_find(name.c_str(), 0); return f && f->state == 1; }
inline std::string GetFile(const std::string& name) {
  VFile* f = vfs_find(name.c_str(), 0);
  if (!f) return "";
  std::string r;
  if (f->n) r.append(f->data, f->n);
  if (f->on) r.append(f->out, f->on);
  return r;
}
inline std::string Cwd() { return "/cwd"; }
#else
#include <unistd.h>
inline std::string Cwd() { char b[4096]; return getcwd(b, sizeof b) ? b : ""; }
inline std::string Local(const std::string& n) { return n.compare(0, 5, "/cwd/") == 0 ? n.substr(5) : n; }
inline void PutFile(const std::string& name, const std::string& text) {
  FILE* f = fopen(Local(name).c_str(), "wb");
  if (!f) abort();
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}
inline void PutDir(const std::string& name) { mkdir(Local(name).c_str(), 0777); }
inline bool HasFile(const std::string& name) { struct stat s; return stat(Local(name).c_str(), &s) == 0 && S_ISREG(s.st_mode); }
inline std::string GetFile(const std::string& name) {
  std::ifstream f(Local(name), std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
#endif
