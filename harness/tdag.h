// Independent reader of the trace file (the documented TDAG layout).
#pragma once
#include "vh.h"
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

struct Tdag {
  struct Sec {
    uint32_t tag, align;
    uint64_t off, size;
  };
  struct Src {
    std::string name;
    int fd;
    uint64_t size;
  };
  struct Sink {
    uint64_t off;
    uint32_t label;
    unsigned idx;
  };
  const uint8_t *m = nullptr;
  uint64_t len = 0;
  uint16_t magic = 0, count = 0;
  std::map<uint32_t, Sec> secs;

  Tdag() = default;
  Tdag(const Tdag &) = delete;
  ~Tdag() {
    if (m)
      munmap((void *)m, len);
  }
  // Returns "" or what is wrong with the header.
  std::string open(const std::string &path) {
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0)
      return "trace file " + path + " cannot be opened";
    struct stat st;
    fstat(fd, &st);
    len = st.st_size;
    if (len < 8) {
      ::close(fd);
      return "trace file is shorter than its header";
    }
    void *p = mmap(nullptr, len, PROT_READ, MAP_SHARED, fd, 0);
    ::close(fd);
    if (p == MAP_FAILED)
      return "trace file cannot be mapped";
    m = (const uint8_t *)p;
    if (memcmp(m, "TDAG", 4))
      return "trace file does not start with TDAG";
    memcpy(&magic, m + 4, 2);
    memcpy(&count, m + 6, 2);
    if (8 + 24ull * count > len)
      return "section headers do not fit in the file";
    for (int i = 0; i < count; i++) {
      Sec s;
      memcpy(&s, m + 8 + 24 * i, 24);
      if (secs.count(s.tag))
        return "two sections with the same tag";
      secs[s.tag] = s;
    }
    return "";
  }
  const Sec &sec(uint32_t tag) const {
    auto it = secs.find(tag);
    VH_CHECK(it != secs.end(), "section with tag %u is missing", tag);
    return it->second;
  }
  uint64_t raw(uint32_t label) const {
    uint64_t v;
    memcpy(&v, m + sec(2).off + 8ull * label, 8);
    return v;
  }
  std::string str(uint32_t off) const {
    uint16_t n;
    memcpy(&n, m + sec(3).off + off, 2);
    return std::string((const char *)m + sec(3).off + off + 2, n);
  }
  Src src(unsigned i) const {
    const uint8_t *p = m + sec(1).off + 16ull * i;
    uint32_t so;
    Src s;
    memcpy(&so, p, 4);
    memcpy(&s.fd, p + 4, 4);
    memcpy(&s.size, p + 8, 8);
    s.name = str(so);
    return s;
  }
  bool bit(uint32_t label) const {
    const uint8_t *p = m + sec(5).off;
    return (p[label / 8] >> (label % 8)) & 1;
  }
  // Only meaningful once the sizes have been written (orderly end).
  size_t nlabels() const { return sec(2).size / 8; }
  size_t nsrc() const { return sec(1).size / 16; }
  size_t nsink() const { return sec(4).size / 16; }
  Sink sink(size_t i) const {
    const uint8_t *p = m + sec(4).off + 16 * i;
    Sink s;
    memcpy(&s.off, p, 8);
    memcpy(&s.label, p + 8, 4);
    s.idx = p[12];
    return s;
  }
  size_t nfn() const { return sec(6).size / 4; }
  std::string fn(size_t i) const {
    uint32_t o;
    memcpy(&o, m + sec(6).off + 4 * i, 4);
    return str(o);
  }
  size_t nev() const { return sec(7).size / 4; }
  std::pair<int, unsigned> ev(size_t i) const {
    const uint8_t *p = m + sec(7).off + 4 * i;
    uint16_t f;
    memcpy(&f, p + 2, 2);
    return {p[0], f};
  }
  struct Cf {
    int kind;
    uint32_t fn, label;
    bool operator==(const Cf &o) const {
      return kind == o.kind && fn == o.fn && label == o.label;
    }
  };
  std::vector<Cf> cflog() const {
    std::vector<Cf> r;
    const uint8_t *p = m + sec(8).off, *e = p + sec(8).size;
    auto var = [&]() {
      uint64_t v = 0;
      int sh = 0;
      while (true) {
        VH_CHECK(p < e, "control-flow log ends inside a number");
        uint8_t b = *p++;
        v |= (uint64_t)(b & 0x7f) << sh;
        sh += 7;
        if (!(b & 0x80))
          break;
        VH_CHECK(sh < 35, "control-flow log has an overlong number");
      }
      return (uint32_t)v;
    };
    while (p < e) {
      Cf c{};
      c.kind = *p++;
      VH_CHECK(c.kind <= 2, "control-flow log has event kind %d", c.kind);
      c.fn = var();
      if (c.kind == 2)
        c.label = var();
      r.push_back(c);
    }
    return r;
  }
  // The set of (source index, offset) a label denotes.
  std::set<std::pair<unsigned, uint64_t>> expand(uint32_t label) const {
    std::set<std::pair<unsigned, uint64_t>> r;
    std::set<uint32_t> seen;
    std::vector<uint32_t> q{label};
    while (!q.empty()) {
      uint32_t l = q.back();
      q.pop_back();
      if (!l || !seen.insert(l).second)
        continue;
      uint64_t v = raw(l);
      if (v >> 63) {
        r.insert({(unsigned)(v & 0xff), (v >> 8) & ((1ull << 54) - 1)});
        continue;
      }
      uint32_t a = (v >> 31) & 0x7fffffff, b = v & 0x7fffffff;
      VH_CHECK(a != b, "label %u has an invalid stored entry", l);
      VH_CHECK(a < l && b < l, "label %u refers to a later label", l);
      if (a < b)
        for (uint32_t x = a; x <= b; x++)
          q.push_back(x);
      else {
        q.push_back(a);
        q.push_back(b);
      }
    }
    return r;
  }
  bool is_src(uint32_t l) const { return l && (raw(l) >> 63); }
  bool cf(uint32_t l) const { return (raw(l) >> 62) & 1; }
};
