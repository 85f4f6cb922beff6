#!/usr/bin/env python3
"""Generate light C++ classes for the proto3 messages of /repo (same accessor API as protoc's)."""
import re, sys, os
SC = {'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'float': 'float',
      'double': 'double', 'bool': 'bool', 'sint32': 'int32_t', 'sint64': 'int64_t'}
def gen(path, out):
    t = open(path).read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S); t = re.sub(r'//[^\n]*', '', t)
    pkg = re.search(r'package\s+(\w+)\s*;', t)
    msgs = [(m.group(1), re.findall(r'(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+[^;]*;', m.group(2)))
            for m in re.finditer(r'message\s+(\w+)\s*\{([^{}]*)\}', t)]
    names = {n for n, _ in msgs}
    g = 'PB_' + re.sub(r'\W', '_', os.path.basename(path)) + '_H'
    o = ['#ifndef ' + g, '#define ' + g, '#include <google/protobuf/message.h>']
    if pkg: o.append('namespace %s {' % pkg.group(1))
    for n, _ in msgs: o.append('class %s;' % n)
    P = '::google::protobuf::'
    for n, fs in msgs:
        o.append('class %s : public %sMessage {\n public:' % (n, P))
        mem, clr, merge = [], [], []
        o.append('  static const %s& default_instance() { static const %s d; return d; }' % (n, n))
        for rep, ty, f in fs:
            ty = ty.split('.')[-1]
            if rep:
                if ty in SC:
                    c = SC[ty]; F = P + 'RepeatedField<%s>' % c
                    o.append(f'  {c} {f}(int i) const {{ return {f}_.Get(i); }}\n  void set_{f}(int i, {c} v) {{ {f}_.Set(i, v); }}\n  void add_{f}({c} v) {{ {f}_.Add(v); }}')
                else:
                    c = 'std::string' if ty in ('string', 'bytes') else ty
                    F = P + 'RepeatedPtrField<%s>' % c
                    o.append(f'  const {c}& {f}(int i) const {{ return {f}_.Get(i); }}\n  {c}* mutable_{f}(int i) {{ return {f}_.Mutable(i); }}\n  {c}* add_{f}() {{ return {f}_.Add(); }}')
                    if c == 'std::string':
                        o.append(f'  void add_{f}(const std::string& v) {{ *{f}_.Add() = v; }}\n  void set_{f}(int i, const std::string& v) {{ *{f}_.Mutable(i) = v; }}')
                o.append(f'  int {f}_size() const {{ return {f}_.size(); }}\n  const {F}& {f}() const {{ return {f}_; }}\n  {F}* mutable_{f}() {{ return &{f}_; }}\n  void clear_{f}() {{ {f}_.Clear(); }}')
                mem.append(f'  {F} {f}_;'); merge.append(f'{f}_.MergeFrom(o.{f}_);')
            elif ty in SC:
                c = SC[ty]
                o.append(f'  {c} {f}() const {{ return {f}_; }}\n  void set_{f}({c} v) {{ {f}_ = v; }}\n  void clear_{f}() {{ {f}_ = {c}(); }}')
                mem.append(f'  {c} {f}_ = {c}();'); merge.append(f'if (o.{f}_ != {c}()) {f}_ = o.{f}_;')
            elif ty in ('string', 'bytes'):
                o.append(f'  const std::string& {f}() const {{ return {f}_; }}\n  void set_{f}(const std::string& v) {{ {f}_ = v; }}\n  void set_{f}(std::string&& v) {{ {f}_ = std::move(v); }}\n  void set_{f}(const char* v) {{ {f}_ = v; }}\n  std::string* mutable_{f}() {{ return &{f}_; }}\n  void clear_{f}() {{ {f}_.clear(); }}')
                mem.append(f'  std::string {f}_;'); merge.append(f'if (!o.{f}_.empty()) {f}_ = o.{f}_;')
            else:
                o.append(f'  bool has_{f}() const {{ return {f}_.p_ != nullptr; }}\n  inline const {ty}& {f}() const;\n  inline {ty}* mutable_{f}();\n  inline void clear_{f}();\n  inline {ty}* release_{f}() {{ {ty}* p = {f}_.p_; {f}_.p_ = nullptr; return p; }}\n  inline void set_allocated_{f}({ty}* p);')
                mem.append(f'  {P}SubMsg<{ty}> {f}_;'); merge.append(f'if (o.has_{f}()) mutable_{f}()->MergeFrom(o.{f}());')
        o.append(f'  void CopyFrom(const {n}& o) {{ if (&o != this) *this = o; }}')
        o.append(f'  inline void MergeFrom(const {n}& o);')
        o.append(f'  void Swap({n}* o) {{ std::swap(*this, *o); }}')
        o.append(f'  void Clear() override {{ *this = {n}(); }}')
        o.append(f'  {n}* New() const {{ return new {n}; }}')
        o.append(f'  {n}();\n  {n}(const {n}&);\n  {n}({n}&&) noexcept;\n  {n}& operator=(const {n}&);\n  {n}& operator=({n}&&) noexcept;\n  ~{n}();')
        o += [' private:'] + mem + ['};']
        n_merge = ' '.join(merge)
        o.append('// merge %s: %s' % (n, ''))
        gen.merge = getattr(gen, 'merge', {}); gen.merge[n] = n_merge
    for n, fs in msgs:
        for rep, ty, f in fs:
            ty = ty.split('.')[-1]
            if not rep and ty in names:
                o.append(f'inline const {ty}& {n}::{f}() const {{ return {f}_.p_ ? *{f}_.p_ : {ty}::default_instance(); }}')
                o.append(f'inline {ty}* {n}::mutable_{f}() {{ if (!{f}_.p_) {f}_.p_ = new {ty}; return {f}_.p_; }}')
                o.append(f'inline void {n}::clear_{f}() {{ delete {f}_.p_; {f}_.p_ = nullptr; }}')
                o.append(f'inline void {n}::set_allocated_{f}({ty}* p) {{ delete {f}_.p_; {f}_.p_ = p; }}')
        o.append(f'inline void {n}::MergeFrom(const {n}& o) {{ {gen.merge[n]} }}')
        o.append(f'inline {n}::{n}() = default;\ninline {n}::{n}(const {n}&) = default;\ninline {n}::{n}({n}&&) noexcept = default;\ninline {n}& {n}::operator=(const {n}&) = default;\ninline {n}& {n}::operator=({n}&&) noexcept = default;\ninline {n}::~{n}() = default;')
    if pkg: o.append('}')
    o.append('#endif')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, 'w').write('\n'.join(o) + '\n')
if __name__ == '__main__':
    for p in sys.argv[2:]:
        gen(p, os.path.join(sys.argv[1], 'src/proto', os.path.basename(p).replace('.proto', '.pb.h')))
