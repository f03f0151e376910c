// IR-side stand-in for Abseil flags: a value per flag, no registry.
#pragma once
#include <string>
namespace absl {
template <class T> struct Flag { T v; };
template <class T> T GetFlag(const Flag<T>& f) { return f.v; }
template <class T, class V> void SetFlag(Flag<T>* f, const V& v) { f->v = v; }
}
#define ABSL_FLAG(T, name, def, help) absl::Flag<T> FLAGS_##name{T(def)}
#define ABSL_DECLARE_FLAG(T, name) extern absl::Flag<T> FLAGS_##name
