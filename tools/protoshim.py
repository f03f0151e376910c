#!/usr/bin/env python3
"""Plain C++ classes with the interface of protobuf's generated ones, made from
the current .proto files, for the symbolic encoding (the native build uses protoc)."""
import os, re, sys
SC = {"double": "double", "float": "float", "int32": "int32_t", "sint32": "int32_t", "sfixed32": "int32_t", "uint32": "uint32_t", "fixed32": "uint32_t",
      "int64": "int64_t", "sint64": "int64_t", "sfixed64": "int64_t", "uint64": "uint64_t", "fixed64": "uint64_t", "bool": "bool", "string": "std::string", "bytes": "std::string"}

def parse(text):
    text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
    toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;\[\],<>()]', text)
    pos = 0
    pkg, msgs = "", []
    def message(prefix):
        nonlocal pos
        name = prefix + toks[pos + 1]
        pos += 3
        m = dict(name=name, fields=[], nested={})
        while toks[pos] != "}":
            t = toks[pos]
            if t == "message":
                short = toks[pos + 1]
                m["nested"][short] = message(name + "_")
            elif t in ("reserved", "option"):
                while toks[pos] != ";": pos += 1
                pos += 1
            else:
                lab = ""
                if t in ("repeated", "optional"): lab, pos = t, pos + 1
                if toks[pos] in ("enum", "oneof", "map"): raise SystemExit("unsupported: " + toks[pos])
                m["fields"].append((lab, toks[pos], toks[pos + 1]))
                while toks[pos] != ";": pos += 1
                pos += 1
        pos += 1
        msgs.append(m)
        return name
    while pos < len(toks):
        if toks[pos] == "message": message("")
        else:
            if toks[pos] == "package": pkg = toks[pos + 1]
            while toks[pos] != ";": pos += 1
            pos += 1
    return pkg, msgs

def emit(pkg, msgs):
    o = ["#pragma once", "#include <cstdint>", "#include <memory>", "#include <string>", "#include <utility>", '#include "google/protobuf/vsx_message.h"', "namespace %s {" % pkg]
    for m in msgs: o.append("class %s;" % m["name"])
    for m in msgs:
        o.append("class %s : public ::google::protobuf::Message {\n public:" % m["name"])
        for k, v in m["nested"].items(): o.append("  using %s = %s;" % (k, v))
        clear, merge = [], []
        for lab, t, n in m["fields"]:
            msg = t not in SC
            ct = m["nested"].get(t, t.replace(".", "_")) if msg else SC[t]
            if lab == "repeated":
                R = "::google::protobuf::%s<%s>" % ("RepeatedPtrField" if msg or ct == "std::string" else "RepeatedField", ct)
                o.append("  %s %s_;" % (R, n))
                o.append("  int %s_size() const { return %s_.size(); } const %s& %s() const { return %s_; } %s* mutable_%s() { return &%s_; } void clear_%s() { %s_.Clear(); }" % (n, n, R, n, n, R, n, n, n, n))
                if msg: o.append("  const %s& %s(int i) const { return %s_.Get(i); } %s* mutable_%s(int i) { return %s_.Mutable(i); } %s* add_%s() { return %s_.Add(); }" % (ct, n, n, ct, n, n, ct, n, n))
                else: o.append("  const %s& %s(int i) const { return %s_.Get(i); } void set_%s(int i, %s v) { *%s_.Mutable(i) = v; } void add_%s(%s v) { %s_.Add(v); }" % (ct, n, n, n, ct, n, n, ct, n))
                clear.append("%s_.Clear();" % n); merge.append("for (const auto& x : o.%s_) %s_.Add(x);" % (n, n))
            elif msg:
                o.append("  std::shared_ptr<%s> %s_;" % (ct, n))
                o.append("  bool has_%s() const { return %s_ != nullptr; } const %s& %s() const { static const %s d; return %s_ ? *%s_ : d; } %s* mutable_%s() { %s_ = %s_ ? std::make_shared<%s>(*%s_) : std::make_shared<%s>(); return %s_.get(); } void clear_%s() { %s_.reset(); }" % (n, n, ct, n, ct, n, n, ct, n, n, n, ct, n, ct, n, n, n))
                clear.append("%s_.reset();" % n); merge.append("if (o.%s_) mutable_%s()->MergeFrom(*o.%s_);" % (n, n, n))
            else:
                st = ct == "std::string"
                o.append("  %s %s_%s;" % (ct, n, "" if st else " = 0"))
                if lab == "optional": o.append("  bool has_%s_ = false; bool has_%s() const { return has_%s_; }" % (n, n, n))
                has = "has_%s_ = true; " % n if lab == "optional" else ""
                o.append("  %s %s() const { return %s_; } void set_%s(%s v) { %s%s_ = std::move(v); } void clear_%s() { %s_ = %s; %s}" % ("const %s&" % ct if st else ct, n, n, n, ct, has, n, n, n, '""' if st else "0", has.replace("true", "false")))
                if st: o.append("  %s* mutable_%s() { %sreturn &%s_; }" % (ct, n, has, n))
                clear.append("%s_ = %s;" % (n, '""' if st else "0"))
                # an absent scalar is the zero value
                merge.append("if (!o.%s_.empty()) %s_ = o.%s_;" % (n, n, n) if st else "if (o.%s_ != 0) %s_ = o.%s_;" % (n, n, n))
        C = m["name"]
        o.append("  static const %s& default_instance() { static const %s d; return d; }" % (C, C))
        o.append("  void Clear() { %s }\n  void MergeFrom(const %s& o) { %s }\n  void CopyFrom(const %s& o) { if (&o != this) { Clear(); MergeFrom(o); } }\n  void Swap(%s* o) { std::swap(*this, *o); }\n};" % (" ".join(clear), C, " ".join(merge), C, C))
    o.append("}  // namespace %s" % pkg)
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    src, dst = sys.argv[1:3]
    os.makedirs(dst, exist_ok=True)
    for f in sorted(os.listdir(src)):
        if f.endswith(".proto"):
            open(os.path.join(dst, f[:-6] + ".pb.h"), "w").write(emit(*parse(open(os.path.join(src, f)).read())))
