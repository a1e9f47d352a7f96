// C26: damaged Gmsh input is rejected or read, never a crash or corruption.
// Compiled with AddressSanitizer, UBSan and the checked containers of libstdc++. Failed library assertions
// (LF_VERIFY/LF_ASSERT in lf/io) are reports of an error; they are turned into an exception by wrapping
// lf::base::AssertionFailed at link time, every other abort or signal is a crash.
#include <lf/io/io.h>

#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>

#include "gen/gmsh.h"
using namespace gen;
using namespace gmsh;
namespace io = lf::io;

// absurd sizes in a damaged file must not take down the machine: such requests fail with bad_alloc
void *operator new(std::size_t n) {
  if (n > (64ull << 20)) throw std::bad_alloc();
  void *p = std::malloc(n == 0 ? 1 : n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

struct Rejected : std::runtime_error {
  using std::runtime_error::runtime_error;
};
extern "C" void __wrap__ZN2lf4base15AssertionFailedERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_lS8_(
    const std::string &expr, const std::string &file, long line, const std::string &msg) {
  if (file.find("lf/io/") != std::string::npos) throw Rejected(expr + ": " + msg);
  std::cerr << "internal assertion " << expr << " failed at " << file << ":" << line << " " << msg << std::endl;
  std::abort();
}

namespace {
using Parsed = std::variant<io::GMshFileV2, io::GMshFileV4>;
struct Result {
  bool ok = false;
  std::string why;
  uint64_t hash = 0;
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void B(const void *p, size_t n) {
    const auto *c = static_cast<const unsigned char *>(p);
    for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ull;
  }
  template <class T>
  void N(T v) {
    const long long x = static_cast<long long>(v);
    B(&x, sizeof x);
  }
  void D(double v) { B(&v, sizeof v); }
  void V(const Eigen::Vector3d &v) {
    for (int d = 0; d < 3; ++d) D(v(d));
  }
  void S(const std::string &s) {
    N(s.size());
    B(s.data(), s.size());
  }
  template <class T>
  void Ints(const std::vector<T> &v) {
    N(v.size());
    for (auto x : v) N(x);
  }
};
uint64_t HashOf(const io::GMshFileV2 &f) {
  Hash h;
  h.S(f.VersionNumber);
  h.N(f.IsBinary);
  h.N(f.PhysicalEntities.size());
  for (auto &p : f.PhysicalEntities) h.N(p.Dimension), h.N(p.Number), h.S(p.Name);
  h.N(f.Nodes.size());
  for (auto &n : f.Nodes) h.N(n.first), h.V(n.second);
  h.N(f.Elements.size());
  for (auto &e : f.Elements) h.N(e.Number), h.N(e.Type), h.N(e.PhysicalEntityNr), h.N(e.ElementaryEntityNr), h.Ints(e.MeshPartitions), h.Ints(e.NodeNumbers);
  for (auto &p : f.Periodic) {
    h.N(p.Dimension), h.N(p.ElementaryMasterNr), h.N(p.ElementarySlaveNr);
    for (auto &q : p.NodeMapping) h.N(q.first), h.N(q.second);
  }
  return h.h;
}
uint64_t HashOf(const io::GMshFileV4 &f) {
  Hash h;
  h.S(f.version_number);
  h.N(f.is_binary);
  for (auto &p : f.physical_names) h.N(p.dimension), h.N(p.physical_tag), h.S(p.name);
  auto ents = [&](auto &t) {
    auto one = [&](auto &v) {
      h.N(v.size());
      for (auto &e : v) {
        h.N(e.tag);
        h.Ints(e.physical_tags);
        if constexpr (requires { e.coord; }) {
          h.V(e.coord);
        } else {
          h.V(e.min_coord), h.V(e.max_coord), h.Ints(e.bounding_entities);
        }
        if constexpr (requires { e.parent_dim; }) h.N(e.parent_dim), h.N(e.parent_tag), h.Ints(e.partitions);
      }
    };
    one(std::get<0>(t)), one(std::get<1>(t)), one(std::get<2>(t)), one(std::get<3>(t));
  };
  ents(f.entities);
  h.N(f.partitioned_entities.num_partitions);
  for (auto &q : f.partitioned_entities.ghost_entities) h.N(q.tag), h.N(q.partition);
  ents(f.partitioned_entities.partitioned_entities);
  h.N(f.nodes.num_nodes), h.N(f.nodes.min_node_tag), h.N(f.nodes.max_node_tag);
  for (auto &b : f.nodes.node_blocks) {
    h.N(b.entity_dim), h.N(b.entity_tag), h.N(b.nodes.size());
    for (auto &n : b.nodes) h.N(n.first), h.V(n.second);
  }
  h.N(f.elements.element_blocks.size());
  for (auto &b : f.elements.element_blocks) {
    h.N(b.dimension), h.N(b.entity_tag), h.N(b.element_type), h.N(b.elements.size());
    for (auto &e : b.elements) h.N(e.first), h.Ints(e.second);
  }
  for (auto &p : f.periodic_links) {
    h.N(p.dimension), h.N(p.entity_tag_slave), h.N(p.entity_tag_master), h.N(p.affine_transform.has_value());
    if (p.affine_transform)
      for (int k = 0; k < 16; ++k) h.D((*p.affine_transform)(k / 4, k % 4));
    for (auto &q : p.node_mapping) h.N(q.first), h.N(q.second);
  }
  for (auto &q : f.ghost_elements) h.N(q.element_tag), h.N(q.partition_tag), h.Ints(q.ghost_partition_tags);
  return h.h;
}

/// structural invariants of accepted contents
void Inspect(const io::GMshFileV2 &f) {
  if (f.IsBinary)
    for (auto &e : f.Elements) CHECK(static_cast<int>(e.NodeNumbers.size()) == io::NumNodes(e.Type), "accepted element has the nodes of its type", static_cast<int>(e.Type));
}
void Inspect(const io::GMshFileV4 &f) {
  for (auto &b : f.elements.element_blocks)
    for (auto &e : b.elements) CHECK(static_cast<int>(e.second.size()) == io::NumNodes(b.element_type), "accepted element has the nodes of its type", static_cast<int>(b.element_type));
}

struct Mute {
  std::streambuf *o;
  static std::streambuf *Null() {
    struct NB : std::streambuf {
      int overflow(int c) override { return c == EOF ? 0 : c; }
      std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    };
    static NB n;
    return &n;
  }
  Mute() : o(std::cout.rdbuf(Null())) {}
  ~Mute() { std::cout.rdbuf(o); }
};

Result Parse(const std::string &path) {
  Mute m;
  Result r;
  try {
    const Parsed p = io::ReadGmshFile(path);
    r.ok = true;
    std::visit([&](auto &f) { Inspect(f); r.hash = HashOf(f); }, p);
  } catch (const pbt::Fail &) {
    throw;
  } catch (const std::bad_alloc &) {
    r.why = "memory";
  } catch (const std::length_error &) {
    r.why = "memory";
  } catch (const Rejected &) {
    r.why = "error report";
  } catch (const std::exception &e) {
    r.why = std::string("exception ") + e.what();
  }
  return r;
}
Result ParseTwice(pbt::G &g, const std::string &s) {
  TmpFile tmp(s);
  const Result a = Parse(tmp.path());
  const Result b = Parse(tmp.path());
  CHECK(a.ok == b.ok && a.hash == b.hash && a.why == b.why, "repeated parsing gives the same outcome", (a.ok ? "accepted" : a.why) << " / " << (b.ok ? "accepted" : b.why));
  g.label(a.ok ? "accepted" : a.why);
  return a;
}

std::string Valid(pbt::G &g, Enc &enc) {
  MeshOpt o;
  o.max_n = 2;
  o.allow_curved = true;
  o.force_curved = g.b(0.3);
  o.allow_null_geo = false;
  o.unit_scale = true;
  const HMesh hm = RandMesh(g, o);
  File f = RandFile(g, hm, {});
  if (f.has_names)
    for (int k = g.i(0, 3); k > 0; --k) f.names.push_back({g.i(0, 2), g.i(1, 9), g.pick(std::vector<std::string>{"air", "a b", "$End"})});
  enc = g.pick(AllEnc());
  g.label(enc.Name());
  return Encode(g, f, enc);
}
void Show(pbt::G &g, const std::string &s) {
  g.desc() << "file of " << s.size() << " bytes: ";
  for (size_t k = 0; k < std::min<size_t>(s.size(), 600); ++k) {
    const unsigned char c = s[k];
    if (c == '\n' || (c >= 32 && c < 127))
      g.desc() << c;
    else
      g.desc() << "\\x" << "0123456789abcdef"[c >> 4] << "0123456789abcdef"[c & 15];
  }
}
size_t Pos(pbt::G &g, const std::string &s) {
  if (s.empty()) return 0;
  // uniformly, or close to the beginning of a section
  if (g.b()) return g.raw(static_cast<uint32_t>(s.size()));
  std::vector<size_t> d;
  for (size_t k = 0; k < s.size(); ++k)
    if (s[k] == '$') d.push_back(k);
  if (d.empty()) return g.raw(static_cast<uint32_t>(s.size()));
  return std::min(s.size() - 1, d[g.i(0, static_cast<int>(d.size()) - 1)] + g.i(0, 60));
}
const std::vector<long long> kExtreme{0, -1, 1, 2, 3, 15, 31, 92, 93, 94, 127, 255, 32767, 65536, 1000000, 2147483647, -2147483647 - 1ll, 4294967295ll, 4294967296ll, 281474976710656ll, 9223372036854775807ll, -9223372036854775807ll};

void MutateBytes(pbt::G &g, std::string &s) {
  for (int k = g.i(1, 6); k > 0; --k) {
    const size_t p = Pos(g, s);
    if (s.empty()) s = "$";
    switch (g.i(0, 6)) {
      case 0: s[p] = static_cast<char>(s[p] ^ (1 << g.i(0, 7))); break;
      case 1: s[p] = static_cast<char>(g.i(0, 255)); break;
      case 2: s.insert(p, 1, static_cast<char>(g.i(0, 255))); break;
      case 3: s.erase(p, 1); break;
      case 4: s.erase(p, g.i(1, 40)); break;
      case 5: s.insert(p, s.substr(Pos(g, s), g.i(1, 40))); break;
      case 6: s.insert(p, g.pick(std::vector<std::string>{"\n", " ", "$", "$End", "\r\n", "\t", "\"", "-", "."})); break;
    }
  }
}
void MutateNumbers(pbt::G &g, std::string &s, const Enc &enc) {
  for (int k = g.i(1, 3); k > 0; --k) {
    if (enc.bin && g.b(0.75)) {
      size_t p = Pos(g, s);
      const long long v = g.pick(kExtreme);
      std::string raw;
      if (g.b()) {
        const int w = static_cast<int>(v);
        Raw(raw, &w, 4, enc.big);
      } else {
        Raw(raw, &v, 8, enc.big);
      }
      for (size_t j = 0; j < raw.size() && p + j < s.size(); ++j) s[p + j] = raw[j];
      continue;
    }
    // a numeric token
    size_t p = Pos(g, s);
    while (p < s.size() && !(s[p] >= '0' && s[p] <= '9')) ++p;
    size_t q = p;
    while (q < s.size() && ((s[q] >= '0' && s[q] <= '9') || s[q] == '.' || s[q] == 'e' || s[q] == '-')) ++q;
    if (p == q) continue;
    static const std::vector<std::string> words{"nan", "inf", "-inf", "1e400", "-1e-400", "1e", "abc", "", "99999999999999999999999999", "18446744073709551615", "18446744073709551616", "0x10", "+1", "1.5", "--1", "\"x\"", "1e99999999999"};
    s.replace(p, q - p, g.b() ? g.pick(words) : std::to_string(g.pick(kExtreme)));
  }
}
std::vector<std::string> Sections(const std::string &s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find("$End", p);
    q = q == std::string::npos ? s.size() : s.find('\n', q);
    q = q == std::string::npos ? s.size() : q + 1;
    v.push_back(s.substr(p, q - p));
    p = q;
  }
  return v;
}
}  // namespace

PBT_SUB("undamaged", 20, 60, "valid files are accepted (sanity of the fuzzing set-up). Non-trivial: always") {
  Enc enc{};
  const std::string s = Valid(g, enc);
  g.nontrivial();
  const Result r = ParseTwice(g, s);
  CHECK(r.ok, "valid file rejected", enc.Name() << ": " << r.why);
}

PBT_SUB("truncation", 100, 300,
        "valid file of any encoding cut at an arbitrary position: no crash, same outcome twice, and never accepted if the section of the elements is not complete. Non-trivial: cut behind the header") {
  Enc enc{};
  const std::string s = Valid(g, enc);
  const size_t n = g.b(0.3) ? s.size() - std::min<size_t>(s.size(), g.i(1, 80)) : g.raw(static_cast<uint32_t>(s.size()));
  const std::string t = s.substr(0, n);
  Show(g, t);
  g.nontrivial(n > 40);
  const Result r = ParseTwice(g, t);
  const size_t e = s.rfind("$EndElements") + 12;
  if (n < e) CHECK(!r.ok, "truncated file accepted", enc.Name() << ": cut at " << n << " of " << s.size() << ", elements end at " << e);
}

PBT_SUB("bytes", 300, 1200, "one to six byte level mutations (flip, overwrite, insert, delete, duplicate, delimiters). Non-trivial: always") {
  Enc enc{};
  std::string s = Valid(g, enc);
  MutateBytes(g, s);
  Show(g, s);
  g.nontrivial();
  ParseTwice(g, s);
}

PBT_SUB("numbers", 300, 1200, "counts, tags, types and coordinates replaced by extreme or malformed values, in text and in binary. Non-trivial: always") {
  Enc enc{};
  std::string s = Valid(g, enc);
  MutateNumbers(g, s, enc);
  if (g.b(0.2)) MutateBytes(g, s);
  Show(g, s);
  g.nontrivial();
  ParseTwice(g, s);
}

PBT_SUB("sections", 150, 600, "sections dropped, repeated, exchanged or taken from a file of another encoding, end markers renamed. Non-trivial: always") {
  Enc e1{}, e2{};
  const std::string s = Valid(g, e1);
  std::vector<std::string> v = Sections(s);
  std::vector<std::string> w = g.b(0.4) ? Sections(Valid(g, e2)) : v;
  for (int k = g.i(1, 3); k > 0 && !v.empty(); --k) {
    const int p = g.i(0, static_cast<int>(v.size()) - 1);
    switch (g.i(0, 5)) {
      case 0: v.erase(v.begin() + p); break;
      case 1: v.insert(v.begin() + p, v[g.i(0, static_cast<int>(v.size()) - 1)]); break;
      case 2: std::swap(v[p], v[g.i(0, static_cast<int>(v.size()) - 1)]); break;
      case 3: v[p] = w[g.i(0, static_cast<int>(w.size()) - 1)]; break;
      case 4: v[p] = v[p].substr(0, g.raw(static_cast<uint32_t>(v[p].size() + 1))); break;
      case 5: {
        const size_t q = v[p].rfind("$End");
        if (q != std::string::npos) v[p].replace(q, v[p].size() - q, g.pick(std::vector<std::string>{"$End\n", "$EndX\n", "$EndNodes\n", "$", "$endelements\n"}));
        break;
      }
    }
  }
  std::string t;
  for (auto &x : v) t += x;
  Show(g, t);
  g.nontrivial();
  ParseTwice(g, t);
}

PBT_SUB("garbage", 60, 200, "random bytes or random tokens behind a valid or invalid header. Non-trivial: valid header") {
  std::string t;
  const bool hdr = g.b(0.8);
  if (hdr) t = Header(g.pick(AllEnc()));
  static const std::vector<std::string> words{"$Nodes\n", "$EndNodes\n", "$Elements\n", "$EndElements\n", "$Entities\n", "$EndEntities\n", "$PhysicalNames\n", "$EndPhysicalNames\n", "$PartitionedEntities\n", "$EndPartitionedEntities\n", "$Periodic\n", "$GhostElements\n", "$MeshFormat\n", "4.1", "2.2", "1 ", "0 ", "3\n", "-7 ", "2.5 ", "\"a\"", "\n", " ", "$"};
  for (int k = g.i(0, 40); k > 0; --k) {
    if (g.b(0.5))
      t += g.pick(words);
    else if (g.b())
      t.push_back(static_cast<char>(g.i(0, 255)));
    else
      t += std::to_string(g.i(-3, 300)) + " ";
  }
  Show(g, t);
  g.nontrivial(hdr);
  ParseTwice(g, t);
}

PBT_SUB("counts", 60, 300,
        "text file whose announced number of nodes, elements or blocks differs from the lines that follow, or a line of a version 2.2 table is missing or repeated: must be rejected. Non-trivial: always") {
  MeshOpt o;
  o.max_n = 2;
  o.allow_null_geo = false;
  o.unit_scale = true;
  const HMesh hm = RandMesh(g, o);
  Opt fo;
  fo.comments = false;
  const File f = RandFile(g, hm, fo);
  const Enc enc = g.b() ? AllEnc()[0] : AllEnc()[3];
  std::string s = Encode(g, f, enc);
  const std::string sec = g.b() ? "$Nodes\n" : "$Elements\n";
  const size_t p = s.find(sec) + sec.size();
  size_t q = p;
  while (q < s.size() && s[q] >= '0' && s[q] <= '9') ++q;
  const long n = std::stol(s.substr(p, q - p));
  const int what = enc.v4 ? 0 : g.i(0, 2);
  if (what == 0) {
    long m = g.b() ? n + g.i(1, 5) : n - g.i(1, static_cast<int>(std::min<long>(n, 5)));
    if (m < 0) m = n + 1;
    s.replace(p, q - p, std::to_string(m));
  } else {
    // one line of the table
    std::vector<size_t> st;
    size_t k = s.find('\n', p) + 1;
    while (s[k] != '$') {
      st.push_back(k);
      k = s.find('\n', k) + 1;
    }
    if (st.empty()) throw pbt::Discard();
    const size_t a = g.pick(st);
    const size_t b = s.find('\n', a) + 1;
    if (what == 1)
      s.erase(a, b - a);
    else
      s.insert(a, s.substr(a, b - a));
  }
  Show(g, s);
  g.nontrivial();
  const Result r = ParseTwice(g, s);
  CHECK(!r.ok, "wrong number of entries accepted", enc.Name() << " " << sec);
}
