// Independent reader for legacy VTK files (version 3.0, unstructured grids).
#ifndef VERIF_GEN_VTK_H
#define VERIF_GEN_VTK_H
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vtk {

struct Array {
  std::string name, type, lookup;
  int comps = 1;
  std::vector<double> v;        // values (component fastest)
  std::vector<int64_t> iv;      // values of integral types
};
struct Out {
  std::string title;
  bool binary = false;
  std::vector<double> points;
  std::vector<std::vector<long>> cells;
  std::vector<int> types;
  std::vector<Array> field, point, cell;
  long n_point = -1, n_cell = -1;
};
struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

class Reader {
 public:
  explicit Reader(std::string s) : s_(std::move(s)) {}
  Out Read() {
    Out o;
    if (Line() != "# vtk DataFile Version 3.0") throw Bad("wrong first line");
    o.title = Line();
    if (o.title.size() > 256) throw Bad("title too long");
    const std::string enc = Line();
    if (enc != "ASCII" && enc != "BINARY") throw Bad("neither ASCII nor BINARY: '" + enc + "'");
    o.binary = bin_ = enc == "BINARY";
    if (Line() != "DATASET UNSTRUCTURED_GRID") throw Bad("no DATASET line");
    std::vector<Array> *cur = nullptr;
    long ncur = 0;
    bool seen_p = false, seen_c = false, seen_t = false;
    for (;;) {
      SkipWs();
      if (p_ >= s_.size()) break;
      std::istringstream h(Line());
      std::string kw;
      h >> kw;
      if (kw == "POINTS") {
        if (seen_p) throw Bad("POINTS twice");
        seen_p = true;
        const long n = Num(h);
        const std::string t = Word(h);
        End(h);
        if (t != "float" && t != "double") throw Bad("type of points " + t);
        Array a;
        Data(a, t, 3 * n);
        o.points = a.v;
      } else if (kw == "CELLS") {
        if (seen_c) throw Bad("CELLS twice");
        seen_c = true;
        const long n = Num(h), size = Num(h);
        End(h);
        Array a;
        Data(a, "int", size);
        size_t k = 0;
        for (long c = 0; c < n; ++c) {
          if (k >= a.iv.size()) throw Bad("cell list too short");
          const int64_t m = a.iv[k++];
          if (m < 0 || k + m > a.iv.size()) throw Bad("cell list inconsistent");
          o.cells.emplace_back(a.iv.begin() + k, a.iv.begin() + k + m);
          k += m;
        }
        if (k != a.iv.size()) throw Bad("cell list too long");
      } else if (kw == "CELL_TYPES") {
        if (seen_t) throw Bad("CELL_TYPES twice");
        seen_t = true;
        const long n = Num(h);
        End(h);
        if (n != static_cast<long>(o.cells.size())) throw Bad("number of cell types");
        Array a;
        Data(a, "int", n);
        o.types.assign(a.iv.begin(), a.iv.end());
      } else if (kw == "FIELD") {
        Word(h);
        const long n = Num(h);
        End(h);
        for (long k = 0; k < n; ++k) {
          SkipWs();
          std::istringstream l(Line());
          Array a;
          a.name = Word(l);
          const long comps = Num(l), tuples = Num(l);
          a.type = Word(l);
          End(l);
          a.comps = comps;
          Data(a, a.type, comps * tuples);
          o.field.push_back(a);
        }
      } else if (kw == "POINT_DATA") {
        if (o.n_point >= 0) throw Bad("POINT_DATA twice");
        ncur = o.n_point = Num(h);
        End(h);
        cur = &o.point;
        if (3 * ncur != static_cast<long>(o.points.size())) throw Bad("POINT_DATA count");
        // an attribute section directly after the header
      } else if (kw == "CELL_DATA") {
        if (o.n_cell >= 0) throw Bad("CELL_DATA twice");
        ncur = o.n_cell = Num(h);
        End(h);
        cur = &o.cell;
        if (ncur != static_cast<long>(o.cells.size())) throw Bad("CELL_DATA count");
      } else if (kw == "SCALARS") {
        if (!cur) throw Bad("attribute outside of a section");
        Array a;
        a.name = Word(h);
        a.type = Word(h);
        std::string c;
        if (h >> c) a.comps = std::stoi(c);
        End(h);
        SkipWs();
        std::istringstream l(Line());
        if (Word(l) != "LOOKUP_TABLE") throw Bad("no LOOKUP_TABLE");
        a.lookup = Word(l);
        End(l);
        Data(a, a.type, ncur * a.comps);
        cur->push_back(a);
      } else if (kw == "VECTORS") {
        if (!cur) throw Bad("attribute outside of a section");
        Array a;
        a.name = Word(h);
        a.type = Word(h);
        End(h);
        a.comps = 3;
        Data(a, a.type, 3 * ncur);
        cur->push_back(a);
      } else {
        throw Bad("unexpected keyword '" + kw.substr(0, 40) + "'");
      }
    }
    if (!seen_p || !seen_c || !seen_t) throw Bad("POINTS, CELLS or CELL_TYPES missing");
    return o;
  }

 private:
  std::string s_;
  size_t p_ = 0;
  bool bin_ = false;

  std::string Line() {
    const size_t e = s_.find('\n', p_);
    if (e == std::string::npos) throw Bad("unexpected end of file");
    std::string l = s_.substr(p_, e - p_);
    p_ = e + 1;
    return l;
  }
  void SkipWs() {
    while (p_ < s_.size() && (s_[p_] == '\n' || s_[p_] == ' ')) ++p_;
  }
  static std::string Word(std::istringstream &h) {
    std::string w;
    if (!(h >> w)) throw Bad("missing word");
    return w;
  }
  static long Num(std::istringstream &h) {
    const std::string w = Word(h);
    size_t q = 0;
    const long n = std::stol(w, &q);
    if (q != w.size() || n < 0) throw Bad("bad number '" + w + "'");
    return n;
  }
  static void End(std::istringstream &h) {
    std::string w;
    if (h >> w) throw Bad("unexpected '" + w.substr(0, 40) + "' at the end of a header line");
  }
  static int Width(const std::string &t) {
    static const std::map<std::string, int> m{{"char", 1}, {"unsigned_char", 1}, {"short", 2}, {"unsigned_short", 2}, {"int", 4}, {"unsigned_int", 4}, {"long", 8}, {"unsigned_long", 8}, {"float", 4}, {"double", 8}};
    const auto it = m.find(t);
    if (it == m.end()) throw Bad("unknown data type '" + t + "'");
    return it->second;
  }
  void Data(Array &a, const std::string &t, long n) {
    const int w = Width(t);
    const bool flt = t == "float" || t == "double";
    if (bin_) {
      if (p_ + n * w > s_.size()) throw Bad("binary block too short");
      for (long k = 0; k < n; ++k) {
        uint64_t u = 0;
        for (int b = 0; b < w; ++b) u = (u << 8) | static_cast<unsigned char>(s_[p_++]);
        if (t == "float") {
          float f;
          const uint32_t x = u;
          std::memcpy(&f, &x, 4);
          a.v.push_back(f);
        } else if (t == "double") {
          double d;
          std::memcpy(&d, &u, 8);
          a.v.push_back(d);
        } else {
          int64_t i = static_cast<int64_t>(u);
          if (t[0] != 'u' && w < 8) i = static_cast<int64_t>(u << (64 - 8 * w)) >> (64 - 8 * w);
          a.iv.push_back(i);
        }
      }
    } else {
      for (long k = 0; k < n; ++k) {
        SkipWs();
        size_t e = p_;
        while (e < s_.size() && s_[e] != ' ' && s_[e] != '\n') ++e;
        const std::string w2 = s_.substr(p_, e - p_);
        if (w2.empty()) throw Bad("too few values");
        p_ = e;
        char *end = nullptr;
        if (flt) {
          a.v.push_back(std::strtod(w2.c_str(), &end));
        } else {
          const bool neg = w2[0] == '-';
          a.iv.push_back(neg ? std::strtoll(w2.c_str(), &end, 10) : static_cast<int64_t>(std::strtoull(w2.c_str(), &end, 10)));
        }
        if (*end != 0) throw Bad("'" + w2.substr(0, 40) + "' is not a value of type " + t);
      }
    }
    // a block ends with the line
    if (!bin_ && n > 0 && p_ < s_.size() && s_[p_] != '\n' && s_[p_] != ' ') throw Bad("block does not end with the line");
  }
};

inline Out ReadFile(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw Bad("no file");
  std::ostringstream s;
  s << f.rdbuf();
  return Reader(s.str()).Read();
}
}  // namespace vtk
#endif
