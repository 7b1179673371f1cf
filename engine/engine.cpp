// Workload generator, memory environment, and runtime monitors for the
// pymtl3-mem blocking cache.  Everything here observes only the two en/rdy
// interfaces of the cache (the processor side and the memory side).
#include "engine.h"

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using std::deque;
using std::string;
using std::vector;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- utilities
static inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(mix(x)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix(s);
  }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)(next() % n); }
  bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
  int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
};
static string fmt(const char* f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static int clog2(u64 n) {
  int r = 0;
  while ((1ULL << r) < n) r++;
  return r;
}

enum {
  READ = 0,
  WRITE = 1,
  WINIT = 2,
  AMO_ADD = 3,
  AMO_AND,
  AMO_OR,
  AMO_SWAP,
  AMO_MIN,
  AMO_MINU,
  AMO_MAX,
  AMO_MAXU,
  AMO_XOR = 11,
  LR = 12,
  SC = 13,
  INV = 14,
  FLUSH = 15
};
static bool isAmo(int t) { return t >= AMO_ADD && t <= AMO_XOR; }
static const char* TN[16] = {"rd", "wr", "in", "ad", "an", "or", "sw", "mi",
                             "mu", "mx", "xu", "xo", "lr", "sc", "iv", "fl"};
static u32 amoOp(int t, u32 m, u32 a) {
  switch (t) {
    case AMO_ADD:
      return m + a;
    case AMO_AND:
      return m & a;
    case AMO_OR:
      return m | a;
    case AMO_SWAP:
      return a;
    case AMO_MIN:
      return (int32_t)m < (int32_t)a ? m : a;
    case AMO_MINU:
      return m < a ? m : a;
    case AMO_MAX:
      return (int32_t)m > (int32_t)a ? m : a;
    case AMO_MAXU:
      return m > a ? m : a;
    case AMO_XOR:
      return m ^ a;
  }
  return m;
}

// property bits
enum {
  C01 = 1 << 1,
  C02 = 1 << 2,
  C03 = 1 << 3,
  C04 = 1 << 4,
  C05 = 1 << 5,
  C06 = 1 << 6,
  C07 = 1 << 7,
  C08 = 1 << 8,
  C09 = 1 << 9,
  C10 = 1 << 10,
  C11 = 1 << 11,
  C12 = 1 << 12,
  C13 = 1 << 13,
  C18 = 1 << 18
};

struct Cfg {
  int obw = 8, abw = 32, clw = 128, dbw = 32, nbytes = 64, assoc = 2;
  int nlines, nsets, ib, ob, tb, lw, dw, db, lb, lenw, mlenw;
  void derive() {
    nlines = nbytes * 8 / clw;
    nsets = nlines / assoc;
    ib = clog2(nsets);
    ob = clog2(clw / 8);
    tb = abw - ob - ib;
    lw = clw / 32;
    dw = dbw / 32;
    db = dbw / 8;
    lb = clw / 8;
    lenw = clog2(dbw / 8);
    mlenw = clog2(clw / 8);
  }
  u64 amask() const { return abw == 64 ? ~0ULL : ((1ULL << abw) - 1); }
  u64 omask() const { return obw == 64 ? ~0ULL : ((1ULL << obw) - 1); }
  u64 line(u64 a) const { return a & ~(u64)(lb - 1); }
  int set(u64 a) const { return (int)((a >> ob) & (u64)(nsets - 1)); }
  u64 tag(u64 a) const { return (a & amask()) >> (ob + ib); }
  u64 mk(u64 tag, int set) const { return ((tag << (ob + ib)) | ((u64)set << ob)) & amask(); }
};
struct Msg {
  int type = 0;
  u64 opq = 0, addr = 0;
  u32 len = 0, mask = 0, test = 0;
  u32 data[16];
  Msg() { memset(data, 0, sizeof data); }
};

static void putb(u32* w, int off, int n, u64 v) {
  for (int i = 0; i < n;) {
    int wi = (off + i) >> 5, b = (off + i) & 31;
    int k = std::min(32 - b, n - i);
    u32 m = (k == 32) ? ~0u : ((1u << k) - 1);
    w[wi] = (w[wi] & ~(m << b)) | ((u32)((v >> i) & m) << b);
    i += k;
  }
}
static u64 getb(const u32* w, int off, int n) {
  u64 v = 0;
  for (int i = 0; i < n;) {
    int wi = (off + i) >> 5, b = (off + i) & 31;
    int k = std::min(32 - b, n - i);
    u32 m = (k == 32) ? ~0u : ((1u << k) - 1);
    v |= (u64)((w[wi] >> b) & m) << i;
    i += k;
  }
  return v;
}
static void packReq(const Cfg& c, bool mem, const Msg& m, u32* w) {
  memset(w, 0, NWORDS * 4);
  int d = mem ? c.clw : c.dbw, o = 0;
  for (int i = 0; i < d / 32; i++) w[i] = m.data[i];
  o = d;
  if (mem) {
    putb(w, o, c.lw, m.mask);
    o += c.lw;
  }
  int lw = mem ? c.mlenw : c.lenw;
  putb(w, o, lw, m.len);
  o += lw;
  putb(w, o, c.abw, m.addr);
  o += c.abw;
  putb(w, o, c.obw, m.opq);
  o += c.obw;
  putb(w, o, 4, m.type);
}
static void packResp(const Cfg& c, bool mem, const Msg& m, u32* w) {
  memset(w, 0, NWORDS * 4);
  int d = mem ? c.clw : c.dbw, o = 0;
  for (int i = 0; i < d / 32; i++) w[i] = m.data[i];
  o = d;
  if (mem) {
    putb(w, o, c.lw, m.mask);
    o += c.lw;
  }
  int lw = mem ? c.mlenw : c.lenw;
  putb(w, o, lw, m.len);
  o += lw;
  putb(w, o, 2, m.test);
  o += 2;
  putb(w, o, c.obw, m.opq);
  o += c.obw;
  putb(w, o, 4, m.type);
}
static void unpackReq(const Cfg& c, bool mem, const u32* w, Msg& m) {
  int d = mem ? c.clw : c.dbw, o = d;
  memset(m.data, 0, sizeof m.data);
  for (int i = 0; i < d / 32; i++) m.data[i] = w[i];
  m.mask = 0;
  if (mem) {
    m.mask = (u32)getb(w, o, c.lw);
    o += c.lw;
  }
  int lw = mem ? c.mlenw : c.lenw;
  m.len = (u32)getb(w, o, lw);
  o += lw;
  m.addr = getb(w, o, c.abw);
  o += c.abw;
  m.opq = getb(w, o, c.obw);
  o += c.obw;
  m.type = (int)getb(w, o, 4);
}
static void unpackResp(const Cfg& c, bool mem, const u32* w, Msg& m) {
  int d = mem ? c.clw : c.dbw, o = d;
  memset(m.data, 0, sizeof m.data);
  for (int i = 0; i < d / 32; i++) m.data[i] = w[i];
  m.mask = 0;
  if (mem) {
    m.mask = (u32)getb(w, o, c.lw);
    o += c.lw;
  }
  int lw = mem ? c.mlenw : c.lenw;
  m.len = (u32)getb(w, o, lw);
  o += lw;
  m.test = (u32)getb(w, o, 2);
  o += 2;
  m.opq = getb(w, o, c.obw);
  o += c.obw;
  m.type = (int)getb(w, o, 4);
}
static string hexd(const u32* d, int n) {
  string s;
  for (int i = n - 1; i >= 0; i--) s += fmt("%08x", d[i]);
  return s;
}
static string sreq(const Cfg& c, bool mem, const Msg& m) {
  return fmt("%s opq=%llx addr=%llx len=%u%s data=", TN[m.type & 15], (unsigned long long)m.opq,
             (unsigned long long)m.addr, m.len, mem ? fmt(" mask=%x", m.mask).c_str() : "") +
         hexd(m.data, mem ? c.lw : c.dw);
}
static string sresp(const Cfg& c, bool mem, const Msg& m) {
  return fmt("%s opq=%llx test=%u len=%u data=", TN[m.type & 15], (unsigned long long)m.opq, m.test, m.len) +
         hexd(m.data, mem ? c.lw : c.dw);
}

// memory: 32-bit words, pseudo-random default contents, optional history
struct Memory {
  u64 salt = 0;
  std::unordered_map<u64, u32> m;
  bool hist = false;
  std::unordered_map<u64, vector<std::pair<u64, u32>>> h;
  u64 now = 0;
  bool blank = false;  // half of the 64-byte blocks read as zero, as memory nobody ever wrote
  u32 def(u64 a) const {
    if (blank && (mix(salt + (a >> 6)) & 1)) return 0;
    return (u32)mix(salt ^ (a >> 2) * 0x10001ULL);
  }
  u32 get(u64 a) const {
    auto it = m.find(a >> 2);
    return it == m.end() ? def(a) : it->second;
  }
  void set(u64 a, u32 v) {
    if (hist) {
      auto& x = h[a >> 2];
      if (x.empty()) x.push_back({0, get(a)});
      x.push_back({now, v});
    }
    m[a >> 2] = v;
  }
  // was v the content of word a at some time in [t0,now]?
  bool held(u64 a, u32 v, u64 t0) const {
    auto it = h.find(a >> 2);
    if (it == h.end() || it->second.empty()) return get(a) == v;
    const auto& x = it->second;
    for (size_t i = x.size(); i-- > 0;) {
      if (x[i].second == v) return true;
      if (x[i].first < t0) return false;
    }
    return false;
  }
  // byte-masked variant
  bool heldm(u64 a, u32 v, u32 bm, u64 t0) const {
    auto it = h.find(a >> 2);
    if (it == h.end() || it->second.empty()) return ((get(a) ^ v) & bm) == 0;
    const auto& x = it->second;
    for (size_t i = x.size(); i-- > 0;) {
      if (((x[i].second ^ v) & bm) == 0) return true;
      if (x[i].first < t0) return false;
    }
    return false;
  }
};
static u32 bmask(int off, int n) {  // byte mask for n bytes at byte offset off in a word
  u32 r = 0;
  for (int i = 0; i < n; i++) r |= 0xffu << (8 * (off + i));
  return r;
}

// transaction classes (coverage, timing)
enum Cls {
  K_RH,
  K_WHD,
  K_WHC,
  K_RMC,
  K_WMC,
  K_RMD,
  K_WMD,
  K_RMI,
  K_WMI,
  K_AMISS,
  K_ACLEAN,
  K_ADIRTY,
  K_AINVD,
  K_INV,
  K_FL0,
  K_FLN,
  K_N
};
static const char* KN[K_N] = {"rd_hit",           "wr_hit_dirty",  "wr_hit_clean",  "rd_miss_clean",
                              "wr_miss_clean",    "rd_miss_dirty", "wr_miss_dirty", "rd_miss_invdirty",
                              "wr_miss_invdirty", "amo_absent",    "amo_clean",     "amo_dirty",
                              "amo_invdirty",     "inv",           "flush_none",    "flush_dirty"};

struct Viol {
  string mon;
  u32 props;
  u64 ep, cyc;
  string msg;
};
struct Stats {
  u64 episodes = 0, cycles = 0, accepts = 0, resps = 0, memreqs = 0, resets = 0, extw = 0, checks_data = 0,
      checks_wb = 0, checks_amo = 0, checks_flush = 0, checks_inv = 0, checks_hist = 0, checks_timing = 0,
      checks_prog = 0, checks_drf = 0, cmp_runs = 0, stall_resp = 0, stall_mem = 0, locks = 0, midtxn_resets = 0,
      flush_words = 0, backtoback = 0;
  u64 cls[K_N] = {0};
  u64 types[16] = {0};
  std::unordered_set<u64> sig;
  std::unordered_set<u64>* ep = nullptr;  // signatures and handshake histories of the current episode
  vector<string> samples;
};

struct Opt {
  Cfg c;
  u64 seed = 1;
  u64 eps = 10, ep0 = 0;
  double tmax = 1e9;
  int reqs = 300;
  string fam = "flat:1";
  string focus = "mix";
  int cores = 2;
  bool trace = false;
  string hashlog, sigout;
  vector<u64> eplist;
  u32 props = ~0u;
  u64 maxcyc = 0;
  FILE* fl = nullptr;  // record requests, responses and initial memory for the functional model
  bool light = false;  // short latencies and few stalls (slow simulators)
};

struct Op {
  Msg m;
  bool chk = false;
  u32 exp = 0;
  int tag = 0;
};

struct TimP {
  double pr = 1, pm = 1;
  int latmax = 0;
  int mode = 0;
  double preq = 1;
  bool hostile = true;
  int fixlat = -1;
  int seed = 0;
  int rare = 0;  // very long stalls, latencies and idle gaps left in this episode
};

// ------------------------------------------------------------ transaction-level reference model
struct TLine {
  bool v = false, fl = false;  // fl: valid when a FLUSH was answered and not accessed since
  u64 tag = 0;
  u32 dirty = 0;
  u32 data[16];
  TLine() { memset(data, 0, sizeof data); }
};
struct MOp {
  Msg m;
  bool issued = false, acked = false;
  u64 tIss = 0, tAck = 0;
};
struct TExp {
  Msg m;
  bool dataKnown = true;
  u32 why = 0;
};
struct Tlm {
  const Cfg* c;
  vector<TLine> L;
  vector<u8> lru, byAmo, amoLeft;  // replacement order last set by an AMO; accesses left that show what this replaced
  vector<u8> fresh;                // accesses left that show the state a set had after reset
  u32 why = 0;                     // further properties that a wrong outcome of the current request breaks
  deque<Msg> q;
  bool active = false;
  Msg cur;
  vector<MOp> ops;
  int cls = 0, way = 0, setx = 0;
  deque<TExp> er;
  bool off = false;
  vector<int> order;  // outstanding op indexes in issue order
  size_t oh = 0;
  std::function<void(int cls, const Msg&, int way)> onClass;
  void init(const Cfg& cc) {
    c = &cc;
    reset();
  }
  void reset() {
    L.assign(c->nlines, TLine());
    lru.assign(c->nsets, 0);
    byAmo.assign(c->nsets, 0);
    fresh.assign(c->nsets, 4);
    amoLeft.assign(c->nsets, 0);
    q.clear();
    active = false;
    ops.clear();
    er.clear();
    off = false;
    order.clear();
    oh = 0;
  }
  TLine& at(int s, int w) { return L[s * c->assoc + w]; }
  void touch(int s, int w) {
    if (c->assoc == 2) lru[s] = (u8)(1 - w);
    byAmo[s] = 0;
  }
  void rdData(const TLine& l, u64 addr, int n, u32* out) {
    memset(out, 0, 64);
    int o = (int)(addr & (u64)(c->lb - 1));
    for (int i = 0; i < n; i++) {
      int b = o + i;
      if (b >= c->lb) break;
      u32 by = (l.data[b >> 2] >> (8 * (b & 3))) & 0xff;
      out[i >> 2] |= by << (8 * (i & 3));
    }
  }
  static int nbytesOf(const Cfg& c, const Msg& m) {
    if (m.type == WRITE && c.dbw == 32 && m.len == 3) return 8;
    return m.len ? (int)m.len : c.db;
  }
  static void wrBytes(const Cfg& c, const Msg& m, u8* buf, int n) {
    for (int i = 0; i < n; i++) {
      if (i >= c.db) buf[i] = 0;
      else buf[i] = (u8)(m.data[i >> 2] >> (8 * (i & 3)));
    }
  }
  void doWrite(TLine& l, const Msg& m) {
    int n = nbytesOf(*c, m);
    u8 b[64];
    wrBytes(*c, m, b, n);
    int o = (int)(m.addr & (u64)(c->lb - 1));
    for (int i = 0; i < n; i++) {
      int k = o + i;
      if (k >= c->lb) break;
      l.data[k >> 2] = (l.data[k >> 2] & ~(0xffu << (8 * (k & 3)))) | ((u32)b[i] << (8 * (k & 3)));
      l.dirty |= 1u << (k >> 2);
    }
  }
  void mkWb(const TLine& l, int s, const Msg& r) {
    MOp o;
    o.m.type = WRITE;
    o.m.opq = r.opq;
    o.m.addr = c->mk(l.tag, s);
    o.m.len = 0;
    o.m.mask = l.dirty;
    memcpy(o.m.data, l.data, sizeof l.data);
    ops.push_back(o);
  }
  void resp(int test, const u32* d) {
    TExp e;
    e.m.type = cur.type;
    e.m.opq = cur.opq;
    e.m.len = cur.len;
    e.m.test = test;
    e.why = why;
    if (d) memcpy(e.m.data, d, 64);
    er.push_back(e);
  }
  void accept(const Msg& m) {
    if (off) return;
    q.push_back(m);
    advance();
  }
  void advance() {
    while (!active && !q.empty()) {
      cur = q.front();
      q.pop_front();
      ops.clear();
      order.clear();
      oh = 0;
      start();
    }
  }
  void start() {
    const Msg& r = cur;
    int s = c->set(r.addr);
    u64 t = c->tag(r.addr);
    setx = s;
    way = 0;
    why = 0;
    if (r.type == INV) {
      cls = K_INV;
      for (auto& l : L) l.v = false;
      if (onClass) onClass(cls, r, 0);
      resp(0, nullptr);
      return;
    }
    if (r.type == FLUSH) {
      for (int ss = 0; ss < c->nsets; ss++)
        for (int w = 0; w < c->assoc; w++) {
          TLine& l = at(ss, w);
          if (l.dirty) {
            mkWb(l, ss, r);
            l.dirty = 0;
          }
          l.fl = l.v;
        }
      cls = ops.empty() ? K_FL0 : K_FLN;
      if (onClass) onClass(cls, r, 0);
      if (ops.empty()) resp(0, nullptr);
      else active = true;
      return;
    }
    int hw = -1, iw = -1;
    for (int w = 0; w < c->assoc; w++) {
      TLine& l = at(s, w);
      if (l.tag == t) {
        if (l.v) hw = w;
        else if (l.dirty) iw = w;
      }
    }
    if (isAmo(r.type)) {
      int w = hw >= 0 ? hw : iw;
      way = w;
      cls = w < 0 ? K_AMISS : hw >= 0 ? (at(s, w).dirty ? K_ADIRTY : K_ACLEAN) : K_AINVD;
      if (w >= 0 && at(s, w).dirty) mkWb(at(s, w), s, r);
      MOp o;
      o.m.type = r.type;
      o.m.opq = r.opq;
      o.m.addr = r.addr;
      o.m.len = 4;
      o.m.data[0] = r.data[0];
      ops.push_back(o);
      if (onClass) onClass(cls, r, w < 0 ? 0 : w);
      active = true;
      return;
    }
    bool wr = r.type == WRITE;
    if (amoLeft[s]) why |= C07, amoLeft[s]--;
    if (fresh[s]) why |= C13, fresh[s]--;
    if (hw >= 0) {
      way = hw;
      TLine& l = at(s, hw);
      if (l.fl) why |= C04, l.fl = false;
      touch(s, hw);
      if (wr) {
        u32 old = l.dirty;
        doWrite(l, r);
        cls = (l.dirty != old) ? K_WHC : K_WHD;
        if (onClass) onClass(cls, r, hw);
        resp(1, nullptr);
      } else {
        cls = K_RH;
        u32 d[16];
        rdData(l, r.addr, nbytesOf(*c, r), d);
        if (onClass) onClass(cls, r, hw);
        resp(1, d);
      }
      return;
    }
    if (iw >= 0) {
      way = iw;
      cls = wr ? K_WMI : K_RMI;
    } else {
      way = lru[s];
      if (byAmo[s]) why |= C07, amoLeft[s] = 4;
      TLine& l = at(s, way);
      if (l.dirty) {
        mkWb(l, s, r);
        cls = wr ? K_WMD : K_RMD;
        l.dirty = 0;
      } else cls = wr ? K_WMC : K_RMC;
    }
    MOp o;
    o.m.type = READ;
    o.m.opq = r.opq;
    o.m.addr = c->line(r.addr);
    o.m.len = 0;
    ops.push_back(o);
    if (onClass) onClass(cls, r, way);
    active = true;
  }
  void finish(const Msg& mr) {
    const Msg& r = cur;
    active = false;
    if (r.type == FLUSH) {
      resp(0, nullptr);
    } else if (isAmo(r.type)) {
      if (way >= 0 && cls != K_AMISS) {
        at(setx, way) = TLine();
        if (c->assoc == 2) lru[setx] = (u8)way, byAmo[setx] = 1;
      }
      u32 d[16] = {0};
      d[0] = mr.data[0];
      resp(0, d);
    } else {
      TLine& l = at(setx, way);
      bool keep = (cls == K_RMI || cls == K_WMI);
      if (!keep) l.dirty = 0;
      for (int i = 0; i < c->lw; i++)
        if (!((l.dirty >> i) & 1)) l.data[i] = mr.data[i];
      l.tag = c->tag(r.addr);
      l.v = true;
      l.fl = false;
      touch(setx, way);
      if (r.type == WRITE) {
        doWrite(l, r);
        resp(0, nullptr);
      } else {
        u32 d[16];
        rdData(l, r.addr, nbytesOf(*c, r), d);
        resp(0, d);
      }
    }
    advance();
  }
};

// ------------------------------------------------------------ random request generator
struct GenP {
  double wR, wW, wA, wI, wF;
  int ntags, nsets;
  bool dbl;
  double small;
  bool fill = false;  // touch every line of every set before random traffic
};
struct Gen {
  const Cfg* c;
  Rng r{1};
  GenP g;
  vector<u64> tags;
  vector<int> sets;
  int mode = 0, left = 0;
  u64 last = 0, stream = 0, hot = 0;
  int pset = 0, pi = 0;
  int fpos = 0, fmul = 1, fadd = 0;
  void init(const Cfg& cc, u64 seed, const GenP& gp) {
    c = &cc;
    r = Rng(seed);
    g = gp;
    tags.clear();
    sets.clear();
    u64 tm = c->tb >= 64 ? ~0ULL : ((1ULL << c->tb) - 1);
    u64 maxt = c->tb >= 16 ? 1000 : (1ULL << c->tb);
    int nt = (int)std::min<u64>(g.ntags, maxt);
    int guard = 0;
    while ((int)tags.size() < nt && guard++ < 1000) {
      u64 t;
      int k = r.below(8);
      if (k == 0) t = 0;
      else if (k == 1) t = tm;
      else if (k <= 4 && !tags.empty()) t = tags[r.below(tags.size())] ^ (1ULL << r.below(c->tb));
      else t = r.next();
      t &= tm;
      if (std::find(tags.begin(), tags.end(), t) == tags.end()) tags.push_back(t);
    }
    int ns = std::min(g.nsets, c->nsets);
    guard = 0;
    while ((int)sets.size() < ns && guard++ < 1000) {
      int s;
      int k = r.below(8);
      if (k == 0) s = 0;
      else if (k == 1) s = c->nsets - 1;
      else if (k == 2 && c->ib) s = 1 << r.below(c->ib);
      else if (k == 3 && c->ib) s = c->nsets - 1 - (1 << r.below(c->ib));
      else if (k <= 5 && c->ib && !sets.empty()) s = sets[r.below(sets.size())] ^ (1 << r.below(c->ib));
      else s = r.below(c->nsets);
      if (std::find(sets.begin(), sets.end(), s) == sets.end()) sets.push_back(s);
    }
    last = lineAddr();
    hot = lineAddr();
    stream = lineAddr();
    fpos = 0;
    fmul = 2 * r.below(c->nlines) + 1;
    fadd = r.below(c->nlines);
  }
  u64 lineAddr() { return c->mk(tags[r.below(tags.size())], sets[r.below(sets.size())]); }
  Msg next() {
    if (g.fill && fpos < 2 * c->nlines + 2 && (int)tags.size() >= c->assoc) {
      Msg m;
      int n = fpos++;
      m.opq = r.next() & c->omask();
      if (n == 2 * c->nlines || n == 2 * c->nlines + 1) {
        m.type = FLUSH;
        return m;
      }
      u32 k = (u32)((u64)(n % c->nlines) * fmul + fadd) & (u32)(c->nlines - 1);
      m.type = n < c->nlines && r.p(.6) ? WRITE : READ;
      m.len = c->dbw == 32 ? 0 : 4;
      m.addr = c->mk(tags[k % c->assoc], k / c->assoc) | (4 * r.below(c->lb / 4));
      if (m.type == WRITE)
        for (int i = 0; i < c->dw; i++) m.data[i] = (u32)r.next();
      return m;
    }
    if (left-- <= 0) {
      mode = r.below(6);
      left = r.range(6, 60);
      hot = lineAddr();
      stream = lineAddr();
      pset = sets[r.below(sets.size())];
    }
    Msg m;
    m.opq = r.next() & c->omask();
    double t = g.wR + g.wW + g.wA + g.wI + g.wF;
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * t;
    if ((x -= g.wR) < 0) m.type = READ;
    else if ((x -= g.wW) < 0) m.type = WRITE;
    else if ((x -= g.wA) < 0) m.type = AMO_ADD + r.below(9);
    else if ((x -= g.wI) < 0) m.type = INV;
    else m.type = FLUSH;
    if (m.type == INV || m.type == FLUSH) return m;
    u64 la;
    switch (mode) {
      case 0:
      case 1:
        la = lineAddr();
        break;
      case 2:
        la = hot;
        break;
      case 3:
        la = c->mk(tags[(pi++) % std::min<int>((int)tags.size(), c->assoc + 1 + (left & 1))], pset);
        break;
      case 4:
        stream = (stream + 4) & c->amask();
        la = c->line(stream);
        break;
      default:
        la = r.p(.7) ? c->line(last) : lineAddr();
    }
    int n;
    u32 len;
    if (m.type == READ) {
      int k = r.below(clog2(c->db) + 2);
      if (k > clog2(c->db)) {
        len = 0;
        n = c->db;
      } else {
        n = 1 << k;
        len = (u32)n;
        if (n == c->db) len = 0;
        if (r.p(.35)) {
          len = 0;
          n = c->db;
        }
      }
    } else if (m.type == WRITE) {
      if (g.dbl && c->dbw == 32 && r.p(.2)) {
        len = 3;
        n = 8;
      } else if (c->db > 16 && r.p(.3)) {
        len = 0;
        n = c->db;
      } else {
        int kmax = clog2(std::min(c->db, 16));  // write widths up to 16 bytes
        int k = r.below(kmax + 1);
        if (r.p(.35)) k = r.p(.5) ? kmax : 2;
        n = 1 << k;
        len = (u32)n;
        if (n == c->db) len = 0;
      }
    } else {
      n = 4;
      len = c->dbw == 32 ? 0 : 4;
    }
    int slots = c->lb / n;
    int off;
    if (mode == 4 && m.type != WRITE) off = (int)(stream & (u64)(c->lb - 1)) / n * n;
    else off = n * r.below(slots);
    m.addr = la | (u64)off;
    m.len = len;
    last = m.addr;
    if (m.type != READ) {
      for (int i = 0; i < c->dw; i++)
        m.data[i] = r.p(g.small) ? (r.p(.3) ? (1u << r.below(32)) - (u32)r.below(2) : r.p(.5) ? r.below(4) : (u32) - (int)r.below(4)) : (u32)r.next();
      if (isAmo(m.type))
        for (int i = 1; i < c->dw; i++) m.data[i] = 0;
    }
    return m;
  }
};

// ------------------------------------------------------------ episode
struct MemTx {
  Msg m;
  u64 tAcc, tSvc, tResp;
  bool svc = false;
  Msg r;
};
struct Infl {
  Op op;
  u64 tAcc;
  bool flat = false;
  u32 exp[16];
  bool checkHist = false;
  u64 refNeed = 0;
  bool needRef = false;
  u64 seq = 0;
  bool amoIss = false, amoAck = false;
  u32 amoOld = 0;
  int cls = -1;
  u32 pendM[16];
  u32 pendV[16];
  bool pinv = false;
  int nmem = 0;
  u32 dirtyW = 0;
  vector<u64> tMem, tAck;
  u32 firstTouch = 0;
  int fills = 0;
  u64 gapAcc = 0;
  int prevCls = -1;
  bool iso = false;
  u64 prevResp = 0;
  u64 tRdy = 0;
  u64 rdyLat = 0;
  int rcls = -1;
  bool rdyAll = true;
};
struct PW {
  u32 bm = 0, v = 0;
  bool inv = false;
};
struct LogR {
  vector<u64> resp, mem;
};

struct Episode;
struct Core {
  int id = 0;
  void* h = nullptr;
  DutIn in;
  DutOut out;
  Tlm tlm;
  deque<Infl> inf;
  deque<MemTx> mq;
  u64 seqA = 0, seqR = 0;
  std::unordered_map<u64, PW> pend;     // words (addr>>2) written and not yet written back
  std::unordered_map<u64, u64> refSeq;  // line -> event number of last refill request
  std::unordered_map<u64, u64> syncT;   // line -> time of last AMO sync
  u64 evno = 0, invEv = 0, invT = 0;
  std::unordered_map<u64, u64> amoEv;
  Rng tr{1};
  TimP tp;
  int rph = 0, mph = 0;
  bool rcur = true, mcur = true;
  int frz[2] = {0, 0};
  int gap = 0;
  bool offer = false;
  Op offered;
  u64 lastEv = 0;
  u64 quiet = 0;
  u64 initLeft = 0;
  u64 sinceReset = 0;
  bool ready1 = false;
  bool inited = false;
  u64 rdyLow = 0;
  int prevCls = 0;
  u64 hist = 0;  // handshakes of the last cycles
  bool stR = false, stM = false;
  std::set<u64> touched;
  std::unordered_map<u64, int> lines;
  void* h2 = nullptr;
  DutOut out2;
  DutIn in2;  // what the twin sees: same transfers, other don't-care values
  Rng g2{1};
  bool shadow = false;
  u64 seedn = 0;
  LogR log;
  u64 whash = 0;
  bool ext = false;
  bool histOn = false;
  bool flatOn = true;
  u64 lastAcc = 0;
  bool anyAcc = false;
  bool rdyNext = false;
  u64 tResp = 0;
  int lastCls = -1;
  bool rdyWait = false;
  u64 rdyAcc = 0, lastAck = 0;
  int rdyN = 0;
};

struct Agent {
  virtual ~Agent() {}
  virtual bool next(int core, Op& o) = 0;
  virtual void onAccept(int core, const Op&) {}
  virtual void onResp(int core, const Op&, const Msg&) {}
  virtual bool finished() = 0;
};

struct Episode {
  const Opt& o;
  const Cfg& c;
  const DutVT* vt;
  Stats& st;
  vector<Viol>& vio;
  u64 ep;
  u64 cyc = 0;
  Memory mem;
  vector<Core> cores;
  Agent* ag = nullptr;
  FILE* hl = nullptr;
  bool twin = false;
  u64 h = 1469598103934665603ULL;
  bool trace;
  std::unordered_set<u64> flSeen;
  bool dead = false;
  bool ideal = false;
  bool multi = false;
  double extp = 0;
  vector<u64> extPool;
  Rng er{1};
  bool resets = false;
  double rstp = 0;
  bool quietLog = false;
  deque<string> ring;
  std::set<string> seen;
  std::function<void(const MemTx&, int)> onSvc;
  bool keepLog = false;
  int memlat = 1;
  u64 onlyMonHash = 0;
  Episode(const Opt& oo, const DutVT* v, Stats& s, vector<Viol>& vv, u64 e)
      : o(oo), c(oo.c), vt(v), st(s), vio(vv), ep(e), trace(oo.trace) {}
  void ev(const string& s) {
    if (trace) ring.push_back(fmt("%llu: ", (unsigned long long)cyc) + s);
  }
  void V(const char* mon, u32 props, const string& msg) {
    if (!seen.insert(mon + std::to_string(props)).second) return;
    if (trace) ring.push_back(fmt("%llu: !! %s: ", (unsigned long long)cyc, mon) + msg);
    vio.push_back({mon, props, ep, cyc, msg});
  }
  u32 Pdata() const { return multi ? (C10) : extp > 0 ? (C05) : C01; }

  void drawTim(Core& k, u64 seed, int mode, int maxlat) {
    k.tr = Rng(seed);
    k.tp = TimP();
    TimP& t = k.tp;
    t.mode = mode;
    Rng r(seed ^ 0x5555);
    switch (mode) {
      case 0:
        t.pr = t.pm = 1;
        t.latmax = 0;
        t.preq = 1;
        break;
      case 1: {
        static const double P[] = {.15, .3, .5, .7, .9, 1};
        t.pr = P[r.below(6)];
        t.pm = P[r.below(6)];
        t.latmax = r.below(maxlat + 1);
        static const double Q[] = {.1, .4, .8, 1};
        t.preq = Q[r.below(4)];
        break;
      }
      case 2:
        t.pr = .5;
        t.pm = .5;
        t.latmax = r.below(maxlat + 1);
        t.preq = 1;
        break;  // bursty
      case 3:
        t.pr = 1;
        t.pm = .3;
        t.latmax = r.below(maxlat + 1);
        t.preq = 1;
        break;
      case 4:
        t.pr = .3;
        t.pm = 1;
        t.latmax = r.below(4);
        t.preq = 1;
        break;
      case 5:
        t.pr = 1;
        t.pm = 1;
        t.latmax = r.below(maxlat + 1);
        t.preq = r.p(.5) ? 1 : .5;
        break;  // proc-like
      case 6:
        t.pr = 1;
        t.pm = 1;
        t.latmax = 0;
        t.preq = .3;
        break;
    }
    if (o.light) {
      t.pr = std::max(t.pr, .7);
      t.pm = std::max(t.pm, .7);
      t.preq = std::max(t.preq, .5);
      t.latmax = std::min(t.latmax, 3);
    } else if (r.p(.03)) t.latmax = 150;
    k.rph = k.mph = 0;
    k.rcur = k.mcur = true;
    k.gap = 0;
    k.frz[0] = k.frz[1] = 0;
    if (!o.light && r.p(.12)) t.rare = r.range(1, 4);
    t.hostile = r.p(.8);
    t.fixlat = -1;
  }
  int rarely(Core& k, int oneIn) {  // length of a very long stall, latency or idle gap; mostly 0
    static const int N[] = {40, 70, 140, 270, 520, 1040, 2100};
    if (k.tp.rare <= 0 || k.tr.below(oneIn)) return 0;
    k.tp.rare--;
    return N[k.tr.below(7)];
  }
  bool rdyPick(Core& k, bool resp) {
    TimP& t = k.tp;
    double p = resp ? t.pr : t.pm;
    if (k.frz[resp] > 0) {
      k.frz[resp]--;
      return false;
    }
    if (t.fixlat < 0) k.frz[resp] = rarely(k, 500);
    if (p >= 1 && t.mode != 5) return true;
    bool& cur = resp ? k.rcur : k.mcur;
    int& ph = resp ? k.rph : k.mph;
    if (t.mode == 2) {
      if (ph-- <= 0) {
        cur = !cur;
        ph = k.tr.range(0, cur ? 12 : 8);
      }
      return cur;
    }
    if (t.mode == 5 && resp) { return !k.inf.empty() || k.offer || k.tr.p(.5); }
    return k.tr.p(p);
  }

  void svcMem(Core& k, MemTx& x) {  // perform the operation at the memory
    x.svc = true;
    Msg& m = x.m;
    Msg r;
    r.type = m.type;
    r.opq = m.opq;
    bool g = k.tp.hostile;
    Rng& tr = k.tr;
    r.len = g ? (u32)(tr.next() & ((1u << c.mlenw) - 1)) : (m.type == WRITE ? 0 : m.len);
    r.test = g ? tr.below(4) : 0;
    r.mask = g ? (u32)(tr.next() & ((c.lw >= 32) ? ~0u : ((1u << c.lw) - 1))) : 0;
    if (m.type == READ) {
      u64 a = c.line(m.addr);
      for (int i = 0; i < c.lw; i++) r.data[i] = mem.get(a + 4 * i);
    } else if (m.type == WRITE) {
      u64 a = c.line(m.addr);
      for (int i = 0; i < c.lw; i++)
        if ((m.mask >> i) & 1) mem.set(a + 4 * i, m.data[i]);
      if (g)
        for (int i = 0; i < c.lw; i++) r.data[i] = (u32)tr.next();
    } else if (isAmo(m.type)) {
      u64 a = m.addr & ~3ULL;
      u32 old = mem.get(a);
      mem.set(a, amoOp(m.type, old, m.data[0]));
      r.data[0] = old;
      if (g)
        for (int i = 1; i < c.lw; i++) r.data[i] = (u32)tr.next();
    }
    x.r = r;
    if (onSvc) onSvc(x, k.id);
  }

  void hashAdd(u64 v) {
    h ^= v;
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }

  // ---- monitors -----------------------------------------------------------
  void onMemReq(Core& k, const Msg& m) {
    st.memreqs++;
    k.lastEv = cyc;
    k.quiet = 0;
    k.evno++;
    if (trace) ev(fmt("c%d memreq  ", k.id) + sreq(c, true, m));
    if (keepLog) {
      u64 x = m.type;
      x = mix(x ^ m.addr);
      x = mix(x ^ m.len);
      if (m.type == WRITE) {
        x = mix(x ^ m.mask);
        for (int i = 0; i < c.lw; i++)
          if ((m.mask >> i) & 1) x = mix(x ^ m.data[i] ^ ((u64)i << 40));
      } else if (isAmo(m.type)) x = mix(x ^ m.data[0]);
      k.log.mem.push_back(x);
    }
    u64 la = c.line(m.addr);
    // a line or AMO request that no request in flight asks for, or asks for again
    bool odd = false;
    if (m.type == READ || isAmo(m.type)) {
      odd = true;
      for (auto& x : k.inf)
        if (c.line(x.op.m.addr) == la && (m.type == READ ? x.op.m.type <= WRITE : isAmo(x.op.m.type)) && !x.fills) {
          x.fills++;
          odd = false;
          break;
        }
      if (odd)
        V("memreq_unasked", C02 | C09, "memory request that no request in flight explains: " + sreq(c, true, m));
    }
    // well-formedness
    if (m.type == READ || m.type == WRITE) {
      if (m.addr != la || m.len != 0)
        V("memreq_shape", C09 | C02 | (m.type == WRITE ? C06 : 0), "line request not line aligned or len!=0: " + sreq(c, true, m));
    } else if (isAmo(m.type)) {
      if ((m.addr & 3) || m.len != 4)
        V("amo_shape", C07 | C09, "AMO memory request not a 4-byte word access: " + sreq(c, true, m));
    } else V("memreq_type", C09 | C02, "illegal memory request type: " + sreq(c, true, m));
    if (k.inf.empty()) V("memreq_idle", C09 | C02, "memory request with no request outstanding: " + sreq(c, true, m));
    // opaque: a memory request carries the opaque of a request in flight
    {
      bool ok = false;
      for (auto& x : k.inf)
        if (x.op.m.opq == m.opq || x.op.m.type == FLUSH) ok = true;
      if (!ok) V("memreq_opaque", C09, "memory request opaque matches no request in flight: " + sreq(c, true, m));
    }
    if (!k.inf.empty()) {
      Infl& f = k.inf.front();
      f.nmem++;
      if (f.nmem > c.nlines + 4 && f.nmem > 8) {
        V("mem_livelock", C03 | C09, "unbounded stream of memory requests while serving " + sreq(c, false, f.op.m));
        dead = true;
      }
      f.tMem.push_back(cyc);
    }
    if (m.type == READ) {
      k.refSeq[la] = k.evno;
      for (auto& x : k.mq)
        if (x.m.type == READ) {
          V("two_fills", C02, "line requested while another line is still outstanding: " + sreq(c, true, m));
          break;
        }
    }
    if (m.type == WRITE) {
      st.checks_wb++;
      if (m.mask == 0) V("wb_empty", C06 | C09, "write-back with an empty word mask: " + sreq(c, true, m));
      for (int i = 0; i < c.lw; i++)
        if ((m.mask >> i) & 1) {
          u64 wa = (la + 4 * i) & c.amask();
          auto it = k.pend.find(wa >> 2);
          if (it == k.pend.end())
            V("wb_unwritten", C06 | (multi ? C10 : 0) | (resets ? C13 : 0) | (!k.inf.empty() && k.inf.front().op.m.type == FLUSH ? C04 : 0),
              fmt("write-back of word %llx which the master has not written since its last write-back",
                  (unsigned long long)wa));
          else {
            if ((it->second.v ^ m.data[i]) & it->second.bm)
              V("wb_data", C06 | (multi ? C10 : 0) | (it->second.inv ? C05 : 0),
                fmt("write-back of word %llx carries %08x, bytes last written %08x (mask %08x)", (unsigned long long)wa,
                    m.data[i], it->second.v, it->second.bm));
            k.pend.erase(it);
            if (k.flatOn) {
              auto f = flat.find(wa >> 2);
              u32 e = f == flat.end() ? mem.get(wa) : f->second;
              if (!k.inf.empty() && isAmo(k.inf.front().op.m.type) && k.inf.front().flat &&
                  (k.inf.front().op.m.addr & c.amask() & ~3ULL) == wa)
                e = k.inf.front().exp[0];
              if (e != m.data[i])
                V("wb_word", C06,
                  fmt("write-back of word %llx carries %08x, architectural value %08x", (unsigned long long)wa,
                      m.data[i], e));
            }
          }
        }
    }
    if (isAmo(m.type)) {
      st.checks_amo++;
      Infl* f = nullptr;
      for (auto& x : k.inf)
        if (isAmo(x.op.m.type) && !x.amoIss) {
          f = &x;
          break;
        }
      if (!f)
        V("amo_spurious", C07,
          "AMO memory request without a pending AMO (duplicated or invented): " + sreq(c, true, m));
      else {
        f->amoIss = true;
        const Msg& q = f->op.m;
        if (q.type != m.type || (q.addr & c.amask()) != m.addr || q.data[0] != m.data[0])
          V("amo_forward", C07,
            "AMO forwarded with different operation/address/operand: got " + sreq(c, true, m) + " for " +
                sreq(c, false, q));
      }
      for (int i = 0; i < c.lw; i++)
        if (k.pend.count(((la + 4 * i) & c.amask()) >> 2)) {
          V("amo_before_wb", C07 | C09,
            fmt("AMO issued while word %llx of its line is dirty and not written back",
                (unsigned long long)(la + 4 * i)));
          break;
        }
    }
    // reference model
    Tlm& t = k.tlm;
    if (!t.off) {
      if (!t.active) {
        // the request should have hit: it is a miss, or the eviction of one
        u32 miss = 0;
        if (!k.inf.empty() && k.inf.front().op.m.type <= WRITE && !t.er.empty() && t.er.front().m.test) miss = C08 | t.er.front().why;
        V("traffic_unexpected",
          C09 | miss | ((!k.inf.empty() && k.inf.front().op.m.type == INV) ? C05 : 0) | (m.type == WRITE ? C06 : 0),
          "unexpected memory request: " + sreq(c, true, m));
        t.off = true;
      } else {
        int idx = -1;
        if (t.cur.type == FLUSH) {
          for (size_t i = 0; i < t.ops.size(); i++)
            if (!t.ops[i].issued && t.ops[i].m.addr == m.addr && t.ops[i].m.type == m.type) {
              idx = (int)i;
              break;
            }
        } else
          for (size_t i = 0; i < t.ops.size(); i++)
            if (!t.ops[i].issued) {
              idx = (int)i;
              break;
            }
        u32 fp = (t.cur.type == FLUSH ? C04 : 0) | (isAmo(t.cur.type) ? C07 : 0);
        if (idx < 0) {
          V("traffic_extra", C09 | fp | (m.type == WRITE ? C06 : 0),
            "memory request beyond those the transaction needs: " + sreq(c, true, m) + " while serving " +
                sreq(c, false, t.cur));
          t.off = true;
        } else {
          MOp& x = t.ops[idx];
          x.issued = true;
          x.tIss = cyc;
          t.order.push_back(idx);
          const Msg& e = x.m;
          if (e.type != m.type || e.addr != m.addr) {
            bool otherVictim = false;  // the request is the one another choice of victim would have caused
            if (c.assoc == 2 && !isAmo(t.cur.type) && t.cur.type != FLUSH && idx == 0 && t.cls != K_RMI && t.cls != K_WMI) {
              const TLine& o = t.at(t.setx, 1 - t.way);
              if (m.type == WRITE) otherVictim = o.dirty && o.dirty == m.mask && m.addr == c.mk(o.tag, t.setx);
              else if (m.type == READ) otherVictim = e.type == WRITE && !o.dirty && m.addr == c.line(t.cur.addr);
            }
            V("traffic_mismatch",
              C09 | fp | (otherVictim ? C08 | (t.why & C07) : 0) | ((e.type == WRITE || m.type == WRITE) ? C06 : 0) |
                  ((e.type == WRITE && m.type == WRITE && e.addr != m.addr && !isAmo(t.cur.type) && t.cur.type != FLUSH)
                       ? C08
                       : 0) |
                  ((t.cls == K_RMI || t.cls == K_WMI || t.cls == K_AINVD) ? C05 : 0),
              "memory request " + sreq(c, true, m) + " but the transaction requires " + sreq(c, true, e) +
                  " while serving " + sreq(c, false, t.cur));
            t.off = true;
          } else if (e.opq != m.opq && t.cur.type != FLUSH)
            V("traffic_opaque", C09,
              "memory request opaque differs from the request it serves: " + sreq(c, true, m) + " serving " +
                  sreq(c, false, t.cur));
          else if (m.type == WRITE) {
            if (e.mask != m.mask)
              V("wb_mask", C06 | C09 | fp | (((e.mask & ~m.mask) && anyInv(k)) ? C05 : 0),
                fmt("write-back mask %x, dirty words %x, line %llx", m.mask, e.mask, (unsigned long long)m.addr));
            for (int i = 0; i < c.lw; i++)
              if (((e.mask & m.mask) >> i) & 1)
                if (e.data[i] != m.data[i]) {
                  V("wb_model_data", C06 | fp,
                    fmt("write-back word %d of line %llx is %08x, expected %08x", i, (unsigned long long)m.addr,
                        m.data[i], e.data[i]));
                  break;
                }
          }
        }
      }
    }
  }
  void onMemResp(Core& k, const Msg& r) {
    k.lastEv = cyc;
    k.quiet = 0;
    k.evno++;
    if (trace) ev(fmt("c%d memresp ", k.id) + sresp(c, true, r));
    if (isAmo(r.type))
      for (auto& x : k.inf)
        if (x.amoIss && !x.amoAck) {
          x.amoAck = true;
          x.amoOld = r.data[0];
          break;
        }
    if (!k.inf.empty()) k.inf.front().tAck.push_back(cyc);
    Tlm& t = k.tlm;
    if (!t.off && t.active && t.oh < t.order.size()) {
      MOp& x = t.ops[t.order[t.oh++]];
      x.acked = true;
      x.tAck = cyc;
      bool all = true;
      for (auto& q : t.ops)
        if (!q.acked) all = false;
      if (all) t.finish(r);
    }
  }
  std::unordered_map<u64, u32> flat;  // architectural memory as seen by the single master (word addr>>2)
  u32 fget(u64 a) {
    auto it = flat.find(a >> 2);
    return it == flat.end() ? mem.get(a) : it->second;
  }
  void onAccept(Core& k, const Op& op) {
    const Msg& m = op.m;
    st.accepts++;
    st.types[m.type]++;
    k.lastEv = cyc;
    k.quiet = 0;
    k.evno++;
    if (trace) ev(fmt("c%d req     ", k.id) + sreq(c, false, m));
    if (o.fl) {
      u64 la = m.addr & ~(u64)(c.lw * 4 - 1);
      if (m.type != INV && m.type != FLUSH && flSeen.insert(la).second)
        for (int i = 0; i < c.lw; i++)
          if (u32 w = mem.def(la + 4 * i)) fprintf(o.fl, "M %llx %x\n", (unsigned long long)la + 4 * i, w);
      fprintf(o.fl, "Q %d %llx %llx %u %s\n", m.type, (unsigned long long)m.opq, (unsigned long long)m.addr, m.len,
              hexd(m.data, c.dw).c_str());
    }
    Infl f;
    f.op = op;
    f.tAcc = cyc;
    f.seq = k.seqA++;
    memset(f.exp, 0, sizeof f.exp);
    memset(f.pendM, 0, sizeof f.pendM);
    memset(f.pendV, 0, sizeof f.pendV);
    if (k.anyAcc && k.lastAcc + 1 == cyc) st.backtoback++;
    f.iso = k.inf.empty();
    f.gapAcc = k.anyAcc ? cyc - k.lastAcc : 0;
    f.prevCls = k.lastCls;
    k.anyAcc = true;
    k.lastAcc = cyc;
    k.rdyWait = true;
    k.rdyAcc = cyc;
    k.lastCls = -1;
    k.inf.push_back(f);
    k.stR = k.stM = false;
    if (k.inf.size() == 1) activate(k, k.inf.front());
    k.tlm.accept(m);
    ag->onAccept(k.id, op);
  }
  // a request takes architectural effect when it becomes the oldest one in flight
  static bool anyInv(Core& k) {
    for (auto& x : k.pend)
      if (x.second.inv) return true;
    return false;
  }
  void activate(Core& k, Infl& f) {
    const Msg& m = f.op.m;
    int n = Tlm::nbytesOf(c, m);
    u64 la = c.line(m.addr);
    if (m.type == READ) {
      bool np = false;
      for (int i = 0; i < n; i++) {
        u64 a = (m.addr + i) & c.amask();
        auto it = k.pend.find(a >> 2);
        if (it == k.pend.end()) np = true;
        else {
          f.dirtyW |= 1u << ((a & (u64)(c.lb - 1)) >> 2);
          int sh = 8 * (int)(a & 3);
          if ((it->second.bm >> sh) & 0xff) {
            if (it->second.inv) f.pinv = true;
            f.pendM[i >> 2] |= 0xffu << (8 * (i & 3));
            f.pendV[i >> 2] |= ((it->second.v >> sh) & 0xff) << (8 * (i & 3));
          }
        }
      }
      f.needRef = np;
      if (np) {
        f.refNeed = k.invEv;
        auto it = k.amoEv.find(la);
        if (it != k.amoEv.end() && it->second > f.refNeed) f.refNeed = it->second;
      }
    }
    if (m.type == WRITE) {
      auto it = k.amoEv.find(la);
      f.refNeed = it == k.amoEv.end() ? 0 : it->second;
      f.needRef = false;
    }
    if (m.type == INV) {
      for (auto& x : k.pend) x.second.inv = true;
      for (auto& x : k.lines) x.second = C05;
    }
    if (isAmo(m.type)) k.lines[la] = C07;
    if (k.flatOn) {
      f.flat = true;
      if (m.type == READ) {
        for (int i = 0; i < n; i++) {
          u64 a = (m.addr + i) & c.amask();
          f.exp[i >> 2] |= ((fget(a & ~3ULL) >> (8 * (a & 3))) & 0xff) << (8 * (i & 3));
        }
      } else if (m.type == WRITE) {
        u8 b[64];
        Tlm::wrBytes(c, m, b, n);
        for (int i = 0; i < n; i++) {
          u64 a = (m.addr + i) & c.amask();
          u64 wa = a & ~3ULL;
          u32 v = fget(wa);
          int sh = 8 * (int)(a & 3);
          v = (v & ~(0xffu << sh)) | ((u32)b[i] << sh);
          flat[wa >> 2] = v;
        }
      } else if (isAmo(m.type)) {
        u64 wa = m.addr & ~3ULL;
        u32 old = fget(wa);
        f.exp[0] = old;
        flat[wa >> 2] = amoOp(m.type, old, m.data[0]);
        k.touched.insert(wa >> 2);
      }
    }
    if (m.type == WRITE) {
      u8 b[64];
      Tlm::wrBytes(c, m, b, n);
      for (int i = 0; i < n; i++) {
        u64 a = (m.addr + i) & c.amask();
        PW& p = k.pend[a >> 2];
        int sh = 8 * (int)(a & 3);
        p.bm |= 0xffu << sh;
        p.v = (p.v & ~(0xffu << sh)) | ((u32)b[i] << sh);
        k.touched.insert(a >> 2);
      }
    }
    if (m.type == READ || m.type == WRITE) {
      auto it = k.lines.find(la);
      f.firstTouch = it == k.lines.end() ? C13 : it->second;
      k.lines[la] = 0;
    }
  }
  void onResp(Core& k, const Msg& m) {
    st.resps++;
    k.lastEv = cyc;
    k.quiet = 0;
    k.evno++;
    if (trace) ev(fmt("c%d resp    ", k.id) + sresp(c, false, m));
    if (o.fl)
      fprintf(o.fl, "R %d %llx %u %u %s\n", m.type, (unsigned long long)m.opq, m.test, m.len,
              hexd(m.data, c.dw).c_str());
    if (keepLog) {
      u64 x = m.type;
      x = mix(x ^ m.opq);
      x = mix(x ^ m.len);
      x = mix(x ^ m.test);
      for (int i = 0; i < c.dw; i++) x = mix(x ^ m.data[i]);
      k.log.resp.push_back(x);
    }
    if (k.inf.empty()) {
      V("resp_spurious", C02, "response with no request outstanding: " + sresp(c, false, m));
      return;
    }
    Infl f = k.inf.front();
    k.inf.pop_front();
    k.seqR++;
    const Msg& q = f.op.m;
    k.tResp = cyc;
    string ctx = " for " + sreq(c, false, q) + " got " + sresp(c, false, m);
    if (m.type != q.type) V("resp_type", C02, "response type differs" + ctx);
    if (m.opq != q.opq) V("resp_opaque", C02, "response opaque differs" + ctx);
    if (m.len != q.len) V("resp_len", C02, "response len differs" + ctx);
    if (m.test > 1) V("resp_test", C02 | C08, "test field not 0/1" + ctx);
    if (q.type == WRITE || q.type == INV || q.type == FLUSH) {
      bool nz = false;
      for (int i = 0; i < c.dw; i++)
        if (m.data[i]) nz = true;
      if (nz) V("resp_data_nonzero", C02 | (multi ? 0 : C01), "non-zero data in a WRITE/INV/FLUSH response" + ctx);
    }
    u64 la = c.line(q.addr);
    if (f.firstTouch && m.test)
      V("hit_untouched", C08 | f.firstTouch,
        string("hit reported for a line not accessed since ") +
            (f.firstTouch == C13   ? "reset"
             : f.firstTouch == C05 ? "the last INV"
                                   : "an AMO to it") +
            ctx);
    if (f.flat && (q.type == READ || isAmo(q.type))) {
      st.checks_data++;
      for (int i = 0; i < c.dw; i++)
        if (f.exp[i] != m.data[i]) {
          V(q.type == READ ? "data_seq" : "amo_old", (q.type == READ ? C01 : (C01 | C07)),
            "data differs from the in-order memory: expected " + hexd(f.exp, c.dw) + ctx);
          break;
        }
    }
    if (q.type == READ) {
      for (int i = 0; i < c.dw; i++)
        if ((m.data[i] ^ f.pendV[i]) & f.pendM[i]) {
          V("own_write", Pdata() | (f.pinv ? C05 : 0),
            "read does not return the bytes this master wrote and has not yet written back" + ctx);
          break;
        }
      if (f.needRef && f.refNeed) {
        auto it = k.refSeq.find(la);
        st.checks_inv++;
        if (it == k.refSeq.end() || it->second < f.refNeed)
          V("served_stale", (f.refNeed == k.invEv ? C05 : C07) | (multi ? C10 : 0),
            "line not re-fetched from memory after an invalidation/AMO" + ctx);
      }
      if (k.histOn) {
        int n = Tlm::nbytesOf(c, q);
        u64 t0 = k.invT;
        auto it = k.syncT.find(la);
        if (it != k.syncT.end() && it->second > t0) t0 = it->second;
        for (int i = 0; i < n;) {
          u64 a = (q.addr + i) & c.amask();
          int o = (int)(a & 3);
          int kk = std::min(4 - o, n - i);
          u32 bm = bmask(o, kk);
          u32 got = 0, pm = 0;
          for (int j = 0; j < kk; j++) {
            got |= ((m.data[(i + j) >> 2] >> (8 * ((i + j) & 3))) & 0xff) << (8 * (o + j));
            if ((f.pendM[(i + j) >> 2] >> (8 * ((i + j) & 3))) & 1) pm |= 0xffu << (8 * (o + j));
          }
          // bytes in words that are dirty may predate the synchronisation
          (void)pm;
          if (!((f.dirtyW >> (((q.addr + i) & (u64)(c.lb - 1)) >> 2)) & 1)) {
            st.checks_hist++;
            if (!mem.heldm(a & ~3ULL, got, bm, t0))
              V("hist_value", C05 | (multi ? C10 : 0),
                fmt("read of word %llx returned a value memory has not held since the last synchronisation (cycle "
                    "%llu)",
                    (unsigned long long)(a & ~3ULL), (unsigned long long)t0) +
                    ctx);
          }
          i += kk;
        }
      }
    }
    if (q.type == WRITE && f.refNeed) {
      auto it = k.refSeq.find(la);
      if (it == k.refSeq.end() || it->second < f.refNeed)
        V("amo_line_kept", C07, "write served from a line an AMO should have invalidated" + ctx);
    }
    if (isAmo(q.type)) {
      if (!f.amoIss || !f.amoAck)
        V("amo_not_at_memory", C07, "AMO answered without having been performed at memory" + ctx);
      else {
        if (f.amoOld != m.data[0])
          V("amo_result", C07 | (f.flat ? C01 : 0) | (multi ? C10 : 0),
            fmt("AMO response differs from the value memory returned (%08x)", f.amoOld) + ctx);
        for (int i = 1; i < c.dw; i++)
          if (m.data[i]) {
            V("amo_upper", C07 | C02 | (f.flat ? C01 : 0), "AMO response has non-zero upper data" + ctx);
            break;
          }
      }
      k.amoEv[la] = k.evno;
      k.syncT[la] = f.tAcc;
      // dirty state of the line must be gone: the line was written back before
    }
    if (q.type == INV) {
      k.invEv = k.evno;
      k.invT = f.tAcc;
    }
    if (q.type == FLUSH) {
      st.checks_flush++;
      if (!k.pend.empty())
        V("flush_incomplete", C04 | C06 | (multi ? C10 : 0) | (anyInv(k) ? C05 : 0),
          fmt("FLUSH answered with %zu written word(s) not written back, first at %llx", k.pend.size(),
              (unsigned long long)(k.pend.begin()->first << 2)));
      for (auto& x : k.mq)
        if (x.m.type == WRITE) {
          V("flush_unacked", C04 | (multi ? C10 : 0), "FLUSH answered before memory acknowledged its write-backs");
          break;
        }
      if (k.flatOn && k.mq.empty()) {
        for (u64 w : k.touched) {
          st.flush_words++;
          u32 e = fget(w << 2);
          if (mem.get(w << 2) != e) {
            V("flush_memory", C04 | C01,
              fmt("after FLUSH memory word %llx is %08x, program value %08x", (unsigned long long)(w << 2),
                  mem.get(w << 2), e));
            break;
          }
        }
        k.touched.clear();
      }
    }
    Tlm& t = k.tlm;
    if (!t.off) {
      if (t.er.empty()) {
        V("resp_early", C09 | (q.type == FLUSH ? C04 : 0) | (isAmo(q.type) ? C07 : 0),
          "response before the memory operations of the transaction completed (or were requested)" + ctx);
        t.off = true;
      } else {
        TExp e = t.er.front();
        t.er.pop_front();
        if (e.m.test != m.test) { V("hit_bit", C08 | e.why, fmt("test=%u, expected %u", m.test, e.m.test) + ctx); }
        if (q.type == READ)
          for (int i = 0; i < c.dw; i++)
            if (e.m.data[i] != m.data[i]) {
              V("model_data", Pdata() | (e.why & C04),
                "read data differs from the line contents: expected " + hexd(e.m.data, c.dw) + ctx);
              break;
            }
      }
    }
    if (!k.inf.empty()) activate(k, k.inf.front());
    ag->onResp(k.id, f.op, m);
    if (f.op.chk) {
      st.checks_drf++;
      int n = q.len ? (int)q.len : 4;
      if (isAmo(q.type)) n = 4;
      if (n > 4) n = 4;
      u32 bm = bmask(0, n);
      if ((m.data[0] ^ f.op.exp) & bm)
        V("drf_value", C10, fmt("synchronised read returned %08x, expected %08x", m.data[0] & bm, f.op.exp & bm) + ctx);
    }
    if (ideal) timing(k, f);
  }

  // ---- pipeline timing under ideal conditions --------------------------------
  void timing(Core& k, const Infl& f);

  // ---- one cycle -------------------------------------------------------------
  void doReset(Core& k, int n, bool power) {
    st.resets++;
    if (!k.inf.empty()) st.midtxn_resets++;
    if (trace) ev(fmt("c%d reset for %d cycles", k.id, n));
    for (auto& x : k.mq)
      if (!x.svc && k.tr.p(.5)) svcMem(k, x);
    k.mq.clear();
    k.inf.clear();
    k.pend.clear();
    k.touched.clear();
    k.refSeq.clear();
    k.amoEv.clear();
    k.syncT.clear();
    k.invEv = 0;
    k.invT = cyc;
    k.offer = false;
    k.gap = 0;
    flat.clear();
    k.tlm.reset();
    k.lines.clear();
    if ((resets && !power) || (twin && power)) {
      if (k.h2) vt->destroy(k.h2);
      k.h2 = vt->create(k.id, mix(o.seed * 131 + ep * 17 + (++k.seedn)));
      k.shadow = true;
    }
    for (int i = 0; i < n; i++) {
      memset(&k.in, 0, sizeof k.in);
      k.in.reset = 1;
      k.in.resp_rdy = rdyPick(k, true);
      k.in.memreq_rdy = rdyPick(k, false);
      if (k.tp.hostile) garbage(k);
      vt->eval(k.h, &k.in, &k.out);
      vt->tick(k.h, &k.in);
      if (k.h2) {
        if (twin) twinIn(k, nullptr);
        const DutIn* q = twin ? &k.in2 : &k.in;
        vt->eval(k.h2, q, &k.out2);
        vt->tick(k.h2, q);
      }
    }
    k.sinceReset = 0;
    k.inited = false;
    k.quiet = 0;
    k.rdyLow = 0;
    k.anyAcc = false;
  }
  void garbage(Core& k) { garbage(k.in, k.tr); }
  void garbage(DutIn& in, Rng& tr) {
    Msg m;
    m.type = tr.below(16);
    m.opq = tr.next() & c.omask();
    m.addr = tr.next() & c.amask();
    m.len = tr.below(1u << c.lenw);
    for (int i = 0; i < c.dw; i++) m.data[i] = (u32)tr.next();
    packReq(c, false, m, in.req);
    Msg r;
    r.type = tr.below(16);
    r.opq = tr.next() & c.omask();
    r.test = tr.below(4);
    r.len = tr.below(1u << c.mlenw);
    for (int i = 0; i < c.lw; i++) r.data[i] = (u32)tr.next();
    packResp(c, true, r, in.memresp);
  }
  // inputs of the twin: the same transfers, with every value the cache must ignore drawn afresh
  void twinIn(Core& k, const Msg* mr) {
    DutIn& b = k.in2;
    memset(&b, 0, sizeof b);
    if (k.g2.p(.8)) garbage(b, k.g2);
    const DutIn& a = k.in;
    b.reset = a.reset;
    b.resp_rdy = a.resp_rdy;
    b.memreq_rdy = a.memreq_rdy;
    b.req_en = a.req_en;
    b.memresp_en = a.memresp_en;
    if (a.req_en) {
      Msg q = k.offered.m;  // bits of the data field that the operation does not use
      int nb = q.type == WRITE ? Tlm::nbytesOf(c, q) : isAmo(q.type) ? 4 : 0;
      for (int i = 0; i < c.dw; i++) {
        u32 keep = nb >= 4 * (i + 1) ? ~0u : nb <= 4 * i ? 0 : (1u << (8 * (nb - 4 * i))) - 1;
        q.data[i] = (q.data[i] & keep) | ((u32)k.g2.next() & ~keep);
      }
      packReq(c, false, q, b.req);
    }
    if (a.memresp_en && mr) {
      Msg r = *mr;
      r.len = (u32)(k.g2.next() & ((1u << c.mlenw) - 1));
      r.test = k.g2.below(4);
      r.mask = (u32)(k.g2.next() & ((c.lw >= 32) ? ~0u : ((1u << c.lw) - 1)));
      r.opq = k.g2.next() & c.omask();
      if (r.type == WRITE)
        for (int i = 0; i < c.lw; i++) r.data[i] = (u32)k.g2.next();
      else if (isAmo(r.type))
        for (int i = 1; i < c.lw; i++) r.data[i] = (u32)k.g2.next();
      packResp(c, true, r, b.memresp);
    }
  }
  void step(Core& k) {
    DutIn& in = k.in;
    memset(&in, 0, sizeof in);
    in.resp_rdy = rdyPick(k, true);
    in.memreq_rdy = rdyPick(k, false);
    if (k.tp.hostile) garbage(k);
    // memory
    for (auto& x : k.mq)
      if (!x.svc) {
        if (x.tSvc <= cyc) svcMem(k, x);
        else break;
      }
    bool md = false;
    if (!k.mq.empty() && k.mq.front().svc && k.mq.front().tResp <= cyc) {
      md = true;
      packResp(c, true, k.mq.front().r, in.memresp);
    }
    // request offer
    if (k.gap > 0) k.gap--;
    if (!k.offer) {
      if (k.gap == 0) {
        k.offer = ag->next(k.id, k.offered);
        if (k.offer && k.tp.fixlat < 0) k.gap = rarely(k, 100);
        if (k.offer && k.tp.preq < 1)
          while (k.tr.p(1 - k.tp.preq) && k.gap < 40) k.gap++;
      }
    }
    bool want = k.offer && k.gap == 0;
    vt->eval(k.h, &in, &k.out);
    bool deliver = md && k.out.memresp_rdy;
    in.memresp_en = deliver;
    bool reqrdy = k.out.req_rdy;
    in.req_en = want && reqrdy;
    if (in.req_en) packReq(c, false, k.offered.m, in.req);
    if (!deliver && md && k.tp.hostile) { memset(in.memresp, 0, sizeof in.memresp); }
    if (in.req_en || in.memresp_en) vt->eval(k.h, &in, &k.out);
    DutOut& ou = k.out;
    if (k.h2) {
      if (twin) twinIn(k, md ? &k.mq.front().r : nullptr);
      vt->eval(k.h2, twin ? &k.in2 : &in, &k.out2);
      DutOut& p = k.out2;
      st.cmp_runs++;
      bool df = p.req_rdy != ou.req_rdy || p.resp_en != ou.resp_en || p.memreq_en != ou.memreq_en ||
                p.memresp_rdy != ou.memresp_rdy;
      if (!df && ou.resp_en) df = memcmp(p.resp, ou.resp, sizeof p.resp) != 0;
      if (!df && ou.memreq_en) {
        Msg x, y;
        unpackReq(c, true, ou.memreq, x);
        unpackReq(c, true, p.memreq, y);
        df = x.type != y.type || x.addr != y.addr || x.len != y.len;
        // (the opaque field of FLUSH write-backs carries no meaning)
        if (!twin || k.inf.empty() || k.inf.front().op.m.type != FLUSH) df |= x.opq != y.opq;
        if (!df && x.type == WRITE) {
          df = x.mask != y.mask;
          for (int i = 0; i < c.lw; i++)
            if ((x.mask >> i) & 1) df |= x.data[i] != y.data[i];
        }
        if (!df && isAmo(x.type)) df = x.data[0] != y.data[0];
      }
      if (df && twin) {
        V("dont_care_divergence", C18,
          fmt("the cache behaves differently when only ignored input values or its power-on contents differ, %llu "
              "cycles after the reset",
              (unsigned long long)k.sinceReset));
        dead = true;
      } else if (df)
        V("reset_divergence", C13,
          fmt("after a mid-run reset the cache behaves differently from a freshly powered-on one, %llu cycles after "
              "the reset",
              (unsigned long long)k.sinceReset));
    }
    // hash of the boundary
    u64 hv = ou.req_rdy | (ou.resp_en << 1) | (ou.memreq_en << 2) | (ou.memresp_rdy << 3);
    hashAdd(hv);
    if (ou.resp_en)
      for (int i = 0; i < NWORDS; i++) hashAdd(ou.resp[i]);
    if (ou.memreq_en) {
      Msg x;
      unpackReq(c, true, ou.memreq, x);
      hashAdd(x.type);
      hashAdd(x.opq);
      hashAdd(x.addr);
      hashAdd(x.len);
      if (x.type == WRITE) {
        hashAdd(x.mask);
        for (int i = 0; i < c.lw; i++)
          if ((x.mask >> i) & 1) hashAdd(x.data[i]);
      } else if (isAmo(x.type)) hashAdd(x.data[0]);
    }
    if (hl) {
      Msg a, b;
      unpackResp(c, false, ou.resp, a);
      unpackReq(c, true, ou.memreq, b);
      fprintf(hl, "%llu %llu %016llx rdy=%d/%d%s%s\n", (unsigned long long)ep, (unsigned long long)cyc,
              (unsigned long long)h, ou.req_rdy, ou.memresp_rdy,
              ou.resp_en ? (" RESP " + sresp(c, false, a)).c_str() : "",
              ou.memreq_en ? (" MEMREQ " + sreq(c, true, b)).c_str() : "");
    }
    if (!in.resp_rdy) {
      st.stall_resp++;
      k.stR = true;
    }
    if (!in.memreq_rdy) {
      st.stall_mem++;
      k.stM = true;
    }
    // protocol
    if (in.req_en && !ou.req_rdy) V("rdy_depends_on_en", C02, "request ready withdrew when the request was offered");
    if (ou.resp_en && !in.resp_rdy) V("resp_en_without_rdy", C02, "response enabled while the receiver is not ready");
    if (ou.memreq_en && !in.memreq_rdy)
      V("memreq_en_without_rdy", C02, "memory request enabled while memory is not ready");
    // initialisation window
    k.sinceReset++;
    if (k.sinceReset <= 1 && (ou.resp_en || ou.memreq_en))
      V("post_reset_output", C13, "output enabled right after reset");
    if (!k.inited) {
      if (ou.req_rdy) {
        k.inited = true;
        st.checks_timing++;
        if ((int)k.sinceReset != c.nlines + 1)
          V("init_cycles", C12,
            fmt("first ready %llu cycles after reset, expected one per line (%d) + 1", (unsigned long long)k.sinceReset,
                c.nlines));
      } else if (k.sinceReset > (u64)(4 * c.nlines + 64)) {
        V("init_hang", C03 | C13, "not ready for requests after reset");
        dead = true;
      }
      if (ou.resp_en) V("init_resp", C13 | C02, "response during initialisation");
      if (ou.memreq_en) V("init_memreq", C13 | C09 | C02, "memory request during initialisation");
    }
    if (ideal && k.inited && !reqrdy && k.inf.empty()) {
      V("idle_not_ready", C12, "idle cache with free ports is not ready for a request");
    }
    if (k.rdyWait && ideal && k.lastCls >= 0) {
      int cl = k.lastCls;
      bool pend = false;
      for (auto& x : k.tlm.ops)
        if (!x.acked) pend = true;
      if (!k.tlm.active) pend = false;
      if (pend) k.rdyN = 0;
      else {
        k.rdyN++;
        u64 lim;
        const char* what = "";
        switch (cl) {
          case K_RH:
          case K_WHD:
            lim = 1;
            what = "hit: next cycle";
            break;
          case K_WHC:
            lim = 2;
            what = "first write to a clean word: one bubble";
            break;
          case K_INV:
          case K_FL0:
            lim = (u64)c.nlines + 2;
            what = "INV/FLUSH: one cycle per line plus 2";
            break;
          case K_FLN:
            lim = (u64)c.nlines + 3;
            what = "FLUSH after its last write-back: at most one cycle per line plus 3";
            break;
          default:
            lim = 3;
            what = "three cycles after the refill/AMO response";
        }
        u64 base = std::max(k.lastAck, k.rdyAcc);
        if (!(k.rdyAcc == cyc) && cyc - base >= lim && !reqrdy) {
          V("ready_late", C12,
            fmt("request interface not ready %llu cycles after %s, transaction class %s (%s)",
                (unsigned long long)(cyc - base),
                k.lastAck > k.rdyAcc ? "the memory response" : "accepting the previous request", KN[cl], what));
          k.rdyWait = false;
        }
        if (reqrdy) {
          k.rdyWait = false;
          st.checks_timing++;
        }
      }
    }
    // events
    if (deliver) {
      k.lastAck = cyc;
      Msg r = k.mq.front().r;
      k.mq.pop_front();
      onMemResp(k, r);
    }
    if (ou.memreq_en) {
      Msg m;
      unpackReq(c, true, ou.memreq, m);
      if (in.memreq_rdy) {
        onMemReq(k, m);
        MemTx x;
        x.m = m;
        x.tAcc = cyc;
        int L = k.tp.latmax;
        if (k.tp.fixlat >= 0) {
          x.tSvc = cyc;
          x.tResp = cyc + 1 + k.tp.fixlat;
        } else {
          int a = k.tr.range(0, L), b = k.tr.range(0, L);
          if (k.tr.p(.3)) a = 0;
          if (k.tr.p(.3)) b = 0;
          x.tSvc = cyc + a;
          x.tResp = x.tSvc + 1 + b + rarely(k, 60);
        }
        if (!k.mq.empty()) {
          x.tSvc = std::max(x.tSvc, k.mq.back().tSvc);
          x.tResp = std::max(x.tResp, k.mq.back().tResp + 1);
        }
        k.mq.push_back(x);
      }
    }
    if (ou.resp_en && in.resp_rdy) {
      Msg m;
      unpackResp(c, false, ou.resp, m);
      onResp(k, m);
    }
    if (in.req_en) {
      onAccept(k, k.offered);
      k.offer = false;
    }
    // progress: cycles with both output ports ready, memory owing nothing
    bool both = in.resp_rdy && in.memreq_rdy;
    bool any = deliver || ou.memreq_en || ou.resp_en || in.req_en;
    if (!any && both && k.mq.empty() && k.inited) {
      k.quiet++;
      st.checks_prog++;
      if (!k.inf.empty()) {
        int t = k.inf.front().op.m.type;
        u64 bound = (t == INV || t == FLUSH) ? (u64)(4 * c.nlines + 64) : 64;
        if (k.quiet > bound) {
          V("no_progress", C03,
            fmt("no progress for %llu ready cycles while serving ", (unsigned long long)k.quiet) +
                sreq(c, false, k.inf.front().op.m));
          dead = true;
        }
      } else if (!ou.req_rdy && k.quiet > 64) {
        V("no_ready", C03, "idle cache does not become ready");
        dead = true;
      }
    }
    if (md && !k.out.memresp_rdy) {
      V("memresp_refused", C02, "memory response the cache asked for is not accepted");
      if (++k.rdyLow > 4096) {
        V("memresp_blocked", C03, "memory response never accepted");
        dead = true;
      }
    } else k.rdyLow = 0;
    if (c.mlenw < 0) dead = true;
    if (st.ep) {
      u64 b = in.reset | in.req_en << 1 | in.resp_rdy << 2 | in.memreq_rdy << 3 | in.memresp_en << 4 | ou.req_rdy << 5 |
              ou.resp_en << 6 | ou.memreq_en << 7;
      u64 ty = k.inf.empty() ? 16 : k.inf.front().op.m.type;
      k.hist = (k.hist << 8 | b) & 0xffffffff;
      st.ep->insert(mix((k.hist << 8 | ty) ^ 0x52ull << 56));
    }
    vt->tick(k.h, &in);
    if (k.h2) vt->tick(k.h2, twin ? &k.in2 : &in);
    st.cycles++;
  }
  void cls(Core& k, int cl, const Msg& m, int way) {
    st.cls[cl]++;
    u64 s = cl;
    s = s * K_N + k.prevCls;
    s = s * 32 + m.len;
    s = s * 2 + (way & 1);
    s = s * 4 + (k.stR ? 1 : 0) + (k.stM ? 2 : 0);
    s = s * 4 + (k.tp.latmax > 3 ? 2 : 0) + (k.gap ? 1 : 0);
    s = s * 16 + (m.type & 15);
    s = s * 4 + ((m.addr >> 2) & 3);
    if (st.ep) st.ep->insert(mix(s ^ 0x51));
    st.sig.insert(mix(s ^ ((u64)c.clw << 40) ^ ((u64)c.dbw << 52) ^ ((u64)c.assoc << 60) ^ ((u64)c.nlines << 20)));
    k.prevCls = cl;
    for (auto& x : k.inf)
      if (x.cls < 0) {
        x.cls = cl;
        break;
      }
    k.lastCls = cl;
  }

  void setup(int n, u64 seed) {
    cores.resize(n);
    for (int i = 0; i < n; i++) {
      Core& k = cores[i];
      k.id = i;
      k.h = vt->create(i, mix(seed ^ (77 + i)));
      k.tlm.init(c);
      Core* kp = &k;
      k.tlm.onClass = [this, kp](int cl, const Msg& m, int w) { cls(*kp, cl, m, w); };
    }
    mem.salt = mix(seed ^ 0xabc);
    mem.blank = o.fl;
    er = Rng(seed ^ 0xdef);
  }
  void teardown() {
    for (auto& k : cores) {
      if (k.h) {
        vt->destroy(k.h);
        k.h = nullptr;
      }
      if (k.h2) {
        vt->destroy(k.h2);
        k.h2 = nullptr;
      }
    }
  }
  bool idle() {
    for (auto& k : cores)
      if (k.offer || !k.inf.empty() || !k.mq.empty()) return false;
    return true;
  }
  void run(u64 maxc) {
    for (auto& k : cores) doReset(k, 1 + (int)k.tr.below(4), true);
    while (!dead) {
      mem.now = cyc;
      for (auto& k : cores) step(k);
      if (extp > 0 && er.p(extp)) {
        u64 a = extPool[er.below(extPool.size())] + 4 * er.below(c.lw);
        mem.set(a & c.amask(), (u32)er.next());
        st.extw++;
        if (trace) ev(fmt("ext write %llx=%08x", (unsigned long long)a, mem.get(a)));
      }
      if (resets && er.p(rstp))
        for (auto& k : cores) doReset(k, 1 + (int)er.below(3), false);
      cyc++;
      if (ag->finished() && idle()) {
        int extra = 0;
        while (extra++ < 6 && !dead) {
          mem.now = cyc;
          for (auto& k : cores) step(k);
          cyc++;
        }
        break;
      }
      if (cyc > maxc) {
        V("episode_stuck", C03, "workload did not drain");
        break;
      }
    }
    if (!dead)
      for (auto& k : cores)
        if (k.seqA != 0 && !k.inf.empty()) V("missing_resp", C02 | C03, "request never answered");
  }
};

void Episode::timing(Core& k, const Infl& f) {
  int cl = f.cls;
  if (cl < 0 || cl >= K_N) return;
  st.checks_timing++;
  const Msg& q = f.op.m;
  string who = string(" (") + KN[cl] + ") " + sreq(c, false, q);
  auto D = [&](u64 a, u64 b) { return (unsigned long long)(a - b); };
  switch (cl) {
    case K_RH:
    case K_WHD:
    case K_WHC:
      if (cyc - f.tAcc > 2)
        V("hit_latency", C12,
          fmt("response %llu cycles after acceptance, pipeline depth allows 2", D(cyc, f.tAcc)) + who);
      break;
    case K_INV:
    case K_FL0:
      if (cyc - f.tAcc > (u64)c.nlines + 3)
        V("inv_latency", C12,
          fmt("response %llu cycles after acceptance, one cycle per line plus 3 is %d", D(cyc, f.tAcc), c.nlines + 3) +
              who);
      break;
    case K_FLN: {
      u64 wait = 0;
      for (size_t i = 0; i < f.tMem.size() && i < f.tAck.size(); i++) wait += f.tAck[i] - f.tMem[i];
      u64 nd = f.tMem.size();
      u64 b = 3 + ((u64)c.nlines - std::min<u64>(nd, c.nlines)) + 4 * nd;
      if (cyc - f.tAcc > b + wait)
        V("flush_latency", C12,
          fmt("FLUSH with %llu write-backs took %llu cycles plus %llu waiting for memory; one cycle per clean line and "
              "four per dirty line plus 3 is %llu",
              (unsigned long long)nd, (unsigned long long)(cyc - f.tAcc - wait), (unsigned long long)wait,
              (unsigned long long)b) +
              who);
      break;
    }
    default:
      if (!f.tMem.empty() && !f.tAck.empty()) {
        if (f.tMem[0] - f.tAcc > 2)
          V("miss_issue", C12,
            fmt("first memory request %llu cycles after acceptance, expected at M2 (2)", D(f.tMem[0], f.tAcc)) + who);
        if (f.tMem.size() > 1 && f.tMem[1] - f.tMem[0] > 1)
          V("evict_issue", C12,
            fmt("second memory request %llu cycles after the first, expected back to back", D(f.tMem[1], f.tMem[0])) +
                who);
        u64 lim = isAmo(q.type) ? 3 : 4;
        if (cyc - f.tAck.back() > lim)
          V("refill_latency", C12,
            fmt("response %llu cycles after the memory response, expected %llu", D(cyc, f.tAck.back()),
                (unsigned long long)lim) +
                who);
      }
  }
}

// ------------------------------------------------------------ agents
struct RandAgent : Agent {
  Episode& e;
  Gen g;
  int left;
  bool finalFlush;
  RandAgent(Episode& x, const Cfg& c, u64 seed, const GenP& gp, int n, bool ff) : e(x), left(n), finalFlush(ff) {
    g.init(c, seed, gp);
  }
  bool next(int, Op& o) override {
    if (left <= 0) {
      if (finalFlush) {
        finalFlush = false;
        o = Op();
        o.m.type = FLUSH;
        o.m.opq = 1;
        return true;
      }
      return false;
    }
    left--;
    o = Op();
    o.m = g.next();
    return true;
  }
  bool finished() override { return left <= 0 && !finalFlush; }
};

// Multi-core data-race-free programs over flush/invalidate coherence.
struct DrfAgent : Agent {
  Episode& e;
  const Cfg& c;
  Rng r;
  int K;
  struct Lock {
    u64 a;
    vector<u64> vars;
    int owner = -1;
  };
  vector<Lock> locks;
  vector<u64> counters;
  std::map<u64, u32> ctrSum;
  std::map<u64, u32> shadow;
  vector<vector<u64>> priv;
  vector<std::map<u64, u32>> pv;
  struct St {
    deque<Op> q;
    int phase = 0;
    int lock = -1;
    int left;
    bool wait = false;
  };
  vector<St> s;
  vector<u64> racy;
  DrfAgent(Episode& x, const Cfg& cc, u64 seed, int k, int nops)
      : e(x), c(cc), r(seed), K(k) {  // layout: shuffle words of a few lines
    int nl = r.range(3, 6);
    vector<u64> words;
    u64 tm = c.tb >= 64 ? ~0ULL : ((1ULL << c.tb) - 1);
    std::set<u64> ls;
    vector<int> sets;
    for (int i = 0; i < 2; i++) sets.push_back(r.below(c.nsets));
    int g = 0;
    while ((int)ls.size() < nl && g++ < 200) ls.insert(c.mk(r.below(4) == 0 ? 0 : (r.next() & tm), sets[r.below(2)]));
    for (u64 l : ls)
      for (int i = 0; i < c.lw; i++) words.push_back(l + 4 * i);
    for (size_t i = words.size(); i > 1; i--) std::swap(words[i - 1], words[r.below((u32)i)]);
    racy = words;
    auto take = [&]() -> u64 {
      u64 w = words.back();
      words.pop_back();
      return w;
    };
    int nlk = r.range(1, 2);
    for (int i = 0; i < nlk && words.size() > 4; i++) {
      Lock L;
      L.a = take();
      e.mem.set(L.a, 0);
      locks.push_back(L);
    }
    if (words.size() > 3) {
      u64 ct = take();
      counters.push_back(ct);
      e.mem.set(ct, 0);
      ctrSum[ct] = 0;
    }
    priv.resize(K);
    pv.resize(K);
    int i = 0;
    while (!words.empty()) {
      u64 w = take();
      int who = r.below(K + locks.size() * 2);
      if (who < K) priv[who].push_back(w), pv[who][w] = e.mem.get(w);
      else {
        locks[i++ % locks.size()].vars.push_back(w);
        shadow[w] = e.mem.get(w);
      }
    }
    s.resize(K);
    for (auto& x : s) x.left = nops;
  }
  Op mk(int t, u64 a, u32 d = 0) {
    Op o;
    o.m.type = t;
    o.m.opq = r.next() & c.omask();
    if (t != INV && t != FLUSH) {
      o.m.addr = a;
      o.m.len = c.dbw == 32 ? 0 : 4;
      o.m.data[0] = d;
    }
    return o;
  }
  void rd(St& x, u64 a, u32 v, bool chk) {
    Op o = mk(READ, a);
    int k = r.below(4);
    if (k == 0) {
      int b = r.below(4);
      o.m.addr = a + b;
      o.m.len = 1;
      v >>= 8 * b;
    } else if (k == 1) {
      int b = 2 * r.below(2);
      o.m.addr = a + b;
      o.m.len = 2;
      v >>= 8 * b;
    }
    o.chk = chk;
    o.exp = v;
    x.q.push_back(o);
  }
  u32 wr(St& x, u64 a, u32 cur) {
    u32 v = (u32)r.next();
    Op o = mk(WRITE, a, v);
    int k = r.below(4);
    if (k == 0) {
      int b = r.below(4);
      o.m.addr = a + b;
      o.m.len = 1;
      u32 m = 0xffu << (8 * b);
      cur = (cur & ~m) | ((v & 0xff) << (8 * b));
    } else if (k == 1) {
      int b = 2 * r.below(2);
      o.m.addr = a + b;
      o.m.len = 2;
      u32 m = 0xffffu << (8 * b);
      cur = (cur & ~m) | ((v & 0xffff) << (8 * b));
    } else cur = v;
    x.q.push_back(o);
    return cur;
  }
  void privOps(int k, St& x, int n) {
    if (priv[k].empty()) return;
    while (n--) {
      u64 a = priv[k][r.below(priv[k].size())];
      int z = r.below(8);
      if (z < 3) rd(x, a, pv[k][a], true);
      else if (z < 7) pv[k][a] = wr(x, a, pv[k][a]);
      else {
        Op o = mk(AMO_ADD + r.below(9), a, (u32)r.next());
        o.chk = true;
        o.exp = pv[k][a];
        pv[k][a] = amoOp(o.m.type, o.exp, o.m.data[0]);
        x.q.push_back(o);
      }
    }
  }
  void racyOps(St& x, int n) {
    while (n--) { rd(x, racy[r.below(racy.size())], 0, false); }
  }
  void plan(int k) {
    St& x = s[k];
    if (x.phase == 0) {
      int z = r.below(12);
      x.left--;
      if (z < 5 && !locks.empty()) {
        if (r.p(.5)) racyOps(x, r.range(1, 4));
        x.lock = r.below(locks.size());
        x.phase = 1;
        Op o = mk(AMO_SWAP, locks[x.lock].a, 1);
        o.tag = 1;
        x.q.push_back(o);
        x.wait = true;
      } else if (z < 8) privOps(k, x, r.range(1, 6));
      else if (z < 9 && !counters.empty()) {
        u32 d = (u32)r.next();
        Op o = mk(AMO_ADD, counters[0], d);
        ctrSum[counters[0]] += d;
        x.q.push_back(o);
      } else if (z < 10) x.q.push_back(mk(FLUSH, 0));
      else if (z < 11) x.q.push_back(mk(INV, 0));
      else racyOps(x, r.range(1, 4));
    } else if (x.phase == 2) {  // lock held: invalidate, use, flush, release
      Lock& L = locks[x.lock];
      x.q.push_back(mk(INV, 0));
      std::map<u64, u32>& v = shadow;
      int n = r.range(1, 8);
      if (!L.vars.empty())
        while (n--) {
          u64 a = L.vars[r.below(L.vars.size())];
          int z = r.below(10);
          if (z < 5) rd(x, a, v[a], true);
          else if (z < 9) v[a] = wr(x, a, v[a]);
          else {
            Op o = mk(AMO_ADD + r.below(9), a, (u32)r.next());
            o.chk = true;
            o.exp = v[a];
            v[a] = amoOp(o.m.type, o.exp, o.m.data[0]);
            x.q.push_back(o);
          }
          if (r.p(.2)) privOps(k, x, 1);
        }
      x.q.push_back(mk(FLUSH, 0));
      Op o = mk(r.p(.5) ? AMO_SWAP : AMO_AND, L.a, 0);
      o.chk = true;
      o.exp = 1;
      o.tag = 2;
      x.q.push_back(o);
      x.wait = true;
      x.phase = 3;
    }
  }
  bool next(int k, Op& o) override {
    St& x = s[k];
    if (x.q.empty()) {
      if (x.wait) return false;
      if (x.left <= 0 && x.phase == 0) return false;
      plan(k);
      if (x.q.empty()) return false;
    }
    o = x.q.front();
    x.q.pop_front();
    return true;
  }
  void onResp(int k, const Op& o, const Msg& m) override {
    St& x = s[k];
    if (o.tag == 1) {
      if (m.data[0] == 0) {
        Lock& L = locks[x.lock];
        if (L.owner >= 0)
          e.V("mutual_exclusion", C10 | C07,
              fmt("core %d acquired lock %llx held by core %d", k, (unsigned long long)L.a, L.owner));
        L.owner = k;
        x.phase = 2;
        x.wait = false;
        e.st.locks++;
      } else {
        Op p = mk(AMO_SWAP, locks[x.lock].a, 1);
        p.tag = 1;
        if (r.p(.3)) privOps(k, x, 1);
        x.q.push_back(p);
      }
    } else if (o.tag == 2) {
      x.phase = 0;
      x.wait = false;
      x.lock = -1;
    }
  }
  void svc(const MemTx& t, int) {
    if (t.m.type >= AMO_ADD && t.m.type <= AMO_XOR)
      for (auto& L : locks)
        if ((t.m.addr & ~3ULL) == L.a && t.m.data[0] == 0) L.owner = -1;
  }
  bool finished() override {
    for (auto& x : s)
      if (!x.q.empty() || x.wait || x.left > 0 || x.phase) return false;
    return true;
  }
  void finalCheck() {
    for (auto& p : ctrSum)
      if (e.mem.get(p.first) != p.second)
        e.V("counter_sum", C10 | C07,
            fmt("atomic counter %llx is %08x, sum of contributions %08x", (unsigned long long)p.first,
                e.mem.get(p.first), p.second));
  }
};

// ------------------------------------------------------------ driver
static GenP focusGen(const string& f, const Cfg& c, Rng& r) {
  GenP g{6, 6, 1.5, .25, .25, 0, 0, true, .2};
  double mw = std::min(1.0, 10.0 / c.nlines);
  string F = f;
  if (F == "mix") {
    static const char* A[] = {"mix0", "rw", "amo", "flush", "inv", "evict", "hit"};
    F = A[r.below(7)];
  }
  if (F == "rw") {
    g = {5, 5, .2, .05, .05, 0, 0, true, .2};
  } else if (F == "amo") {
    g = {4, 5, 5, .15, .2, 0, 0, true, .3};
  } else if (F == "flush") {
    g = {3, 7, 1, .2, 1.2, 0, 0, true, .2};
  } else if (F == "inv") {
    g = {5, 5, 1, 1.2, .2, 0, 0, true, .2};
  } else if (F == "evict") {
    g = {4, 6, .3, .1, .1, 0, 0, true, .2};
  } else if (F == "hit") {
    g = {6, 4, .1, .03, .03, 0, 0, true, .2};
  }
  g.wI *= mw;
  g.wF *= mw;
  g.ntags = r.p(.3) ? c.assoc + 1 : r.range(2, 3 + c.assoc * 2);
  g.nsets = r.p(.5) ? r.range(1, 2) : r.range(1, 8);
  if (F == "fill") g.fill = true, g.ntags = std::max(g.ntags, c.assoc);
  if (F == "evict") g.ntags = c.assoc + r.range(1, 4);
  if (r.p(.15)) g.nsets = 64;
  g.dbl = r.p(.5);
  return g;
}

static string jesc(const string& s) {
  string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32) o += ' ';
    else o += ch;
  }
  return o;
}

static void runEpisode(const Opt& o, const DutVT* vt, u64 e, Stats& st, vector<Viol>& vio, FILE* hl, string* tr) {
  Rng r(mix(o.seed * 1000003ULL + e));  // family choice
  vector<std::pair<string, double>> fams;
  {
    string s = o.fam;
    size_t p = 0;
    while (p < s.size()) {
      size_t q = s.find(',', p);
      if (q == string::npos) q = s.size();
      string t = s.substr(p, q - p);
      size_t k = t.find(':');
      fams.push_back({t.substr(0, k), k == string::npos ? 1.0 : atof(t.c_str() + k + 1)});
      p = q + 1;
    }
  }
  double tot = 0;
  for (auto& f : fams) tot += f.second;
  double x = r.below(1000000) / 1e6 * tot;
  string fam = fams.back().first;
  for (auto& f : fams) {
    if ((x -= f.second) < 0) {
      fam = f.first;
      break;
    }
  }
  const Cfg& c = o.c;
  u64 seed = mix(o.seed * 7919ULL + e * 104729ULL);
  int nreq = o.focus == "fill" ? 2 * c.nlines + 100 : o.reqs;
  int maxlat = r.p(.5) ? 4 : 24;
  u64 maxc = (u64)nreq * (u64)(c.nlines * 6 + 2000) + 100000;
  if (o.maxcyc) maxc = o.maxcyc;
  st.episodes++;
  size_t v0 = vio.size();
  if (fam == "multi") {
    Episode E(o, vt, st, vio, e);
    E.hl = hl;
    E.multi = true;
    E.mem.hist = true;
    int K = std::max(2, o.cores ? (int)(2 + r.below(o.cores - 1)) : 2);
    E.setup(K, seed);
    DrfAgent A(E, c, mix(seed ^ 5), K, std::max(4, nreq / 12));
    E.ag = &A;
    E.onSvc = [&A](const MemTx& t, int k) { A.svc(t, k); };
    for (auto& k : E.cores) {
      k.flatOn = false;
      k.histOn = true;
      E.drawTim(k, mix(seed ^ (1000 + k.id)), r.below(7), maxlat);
    }
    E.run(maxc * K * 8);
    if (!E.dead) A.finalCheck();
    E.teardown();
    if (tr)
      for (auto& s : E.ring) *tr += s + "\n";
  } else if (fam == "tindep") {
    GenP g = focusGen(o.focus, c, r);
    vector<LogR> logs;
    vector<Viol> first;
    int modes[5] = {0, 1, 2, (int)(3 + r.below(4)), 1};
    int nv = 3 + (int)r.below(3);
    for (int v = 0; v < nv; v++) {
      Episode E(o, vt, st, vio, e);
      E.hl = hl;
      E.keepLog = true;
      E.setup(1, seed);
      RandAgent A(E, c, mix(seed ^ 9), g, nreq / 2, true);
      E.ag = &A;
      E.drawTim(E.cores[0], mix(seed ^ (31 * v + 7)), modes[v], maxlat);
      E.cores[0].tp.hostile = (v != 0);
      E.run(maxc);
      logs.push_back(E.cores[0].log);
      if (v > 0) {
        st.checks_timing += logs[0].resp.size() + logs[0].mem.size();
        const char* w = nullptr;
        size_t i = 0;
        if (logs[v].resp != logs[0].resp) {
          w = "response";
          while (i < logs[0].resp.size() && i < logs[v].resp.size() && logs[0].resp[i] == logs[v].resp[i]) i++;
        } else if (logs[v].mem != logs[0].mem) {
          w = "memory-request";
          while (i < logs[0].mem.size() && i < logs[v].mem.size() && logs[0].mem[i] == logs[v].mem[i]) i++;
        }
        if (w)
          E.V("timing_dependence", C11,
              fmt("%s sequence differs at position %zu between timing variant 0 and %d (mode %d)", w, i, v, modes[v]));
      }
      E.teardown();
      if (tr) {
        *tr += fmt("--- variant %d\n", v);
        for (auto& s : E.ring) *tr += s + "\n";
      }
    }
  } else {
    Episode E(o, vt, st, vio, e);
    E.hl = hl;
    GenP g = focusGen(o.focus, c, r);
    if (o.fl) {
      g.dbl = false;
      fprintf(o.fl, "E %llu\n", (unsigned long long)e);
    }
    E.setup(1, seed);
    int mode = r.below(7);
    if (fam == "ideal") mode = r.p(.5) ? 0 : 6;
    RandAgent A(E, c, mix(seed ^ 9), g, nreq, r.p(.7));
    E.ag = &A;
    E.drawTim(E.cores[0], mix(seed ^ 3), mode, maxlat);
    if (fam == "ideal") {
      E.ideal = true;
      E.cores[0].tp.fixlat = r.below(6);
      E.cores[0].tp.preq = r.p(.6) ? 1 : .5;
    }
    if (fam == "ext") {
      E.extp = r.p(.5) ? .05 : .4;
      E.mem.hist = true;
      E.cores[0].flatOn = false;
      E.cores[0].histOn = true;
      for (u64 t : A.g.tags)
        for (int s : A.g.sets) E.extPool.push_back(c.mk(t, s));
    }
    if (fam == "twin") {
      E.twin = true;
      E.cores[0].g2 = Rng(seed ^ 0x7717);
    }
    if (fam == "reset") {
      E.resets = true;
      E.rstp = 1.0 / (r.range(1, 6) * (c.nlines + 40));
    }
    E.run(maxc);
    E.teardown();
    if (tr)
      for (auto& s : E.ring) *tr += s + "\n";
  }
  (void)v0;
  if (st.samples.size() < 3)
    st.samples.push_back(fmt("%s cfg=%d/%d/%d/%d/%d/%d episode=%llu seed=%llu", fam.c_str(), c.obw, c.abw, c.clw, c.dbw,
                             c.nbytes, c.assoc, (unsigned long long)e, (unsigned long long)o.seed));
}

extern "C" char* engine_run(int argc, const char** argv, const DutVT* vt) {
  Opt o;
  for (int i = 0; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--cfg") {
      sscanf(v.c_str(), "%d,%d,%d,%d,%d,%d", &o.c.obw, &o.c.abw, &o.c.clw, &o.c.dbw, &o.c.nbytes, &o.c.assoc);
    } else if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--eps") o.eps = strtoull(v.c_str(), 0, 10);
    else if (k == "--ep0") o.ep0 = strtoull(v.c_str(), 0, 10);
    else if (k == "--tmax") o.tmax = atof(v.c_str());
    else if (k == "--reqs") o.reqs = atoi(v.c_str());
    else if (k == "--fam") o.fam = v;
    else if (k == "--focus") o.focus = v;
    else if (k == "--cores") o.cores = atoi(v.c_str());
    else if (k == "--trace") o.trace = v == "1";
    else if (k == "--hashlog") o.hashlog = v;
    else if (k == "--sigout") o.sigout = v;
    else if (k == "--eplist") {
      std::istringstream is(v);
      for (string x; std::getline(is, x, '+');) o.eplist.push_back(strtoull(x.c_str(), 0, 10));
    }
    else if (k == "--props") o.props = (u32)strtoul(v.c_str(), 0, 0);
    else if (k == "--light") o.light = v == "1";
    else if (k == "--fllog") o.fl = fopen(v.c_str(), "w");
    else if (k == "--maxcyc") o.maxcyc = strtoull(v.c_str(), 0, 10);
  }
  o.c.derive();
  Stats st;
  vector<Viol> vio;
  string tr;
  auto t0 = std::chrono::steady_clock::now();
  FILE* hl = o.hashlog.empty() ? nullptr : fopen(o.hashlog.c_str(), "w");
  FILE* so = o.sigout.empty() ? nullptr : fopen(o.sigout.c_str(), "w");
  std::unordered_set<u64> es;
  if (so) st.ep = &es;
  for (u64 i = 0; i < (o.eplist.empty() ? o.eps : o.eplist.size()); i++) {
    u64 e = o.eplist.empty() ? o.ep0 + i : o.eplist[i], cy0 = st.cycles;
    runEpisode(o, vt, e, st, vio, hl, o.trace ? &tr : nullptr);
    if (so) {
      fprintf(so, "%llu %llu", (unsigned long long)e, (unsigned long long)(st.cycles - cy0));
      for (u64 x : es) fprintf(so, " %llx", (unsigned long long)x);
      fputc('\n', so);
      es.clear();
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > o.tmax) break;
    bool hit = false;
    for (auto& v : vio)
      if (v.props & o.props) hit = true;
    if (hit || vio.size() > 400) break;
  }
  if (hl) fclose(hl);
  if (so) fclose(so);
  if (o.fl) fclose(o.fl);
  string j = "{";
  auto kv = [&](const char* k, u64 v) { j += fmt("\"%s\":%llu,", k, (unsigned long long)v); };
  kv("episodes", st.episodes);
  kv("cycles", st.cycles);
  kv("accepts", st.accepts);
  kv("resps", st.resps);
  kv("memreqs", st.memreqs);
  kv("resets", st.resets);
  kv("midtxn_resets", st.midtxn_resets);
  kv("ext_writes", st.extw);
  kv("checks_data", st.checks_data);
  kv("checks_wb", st.checks_wb);
  kv("checks_amo", st.checks_amo);
  kv("checks_flush", st.checks_flush);
  kv("checks_inv", st.checks_inv);
  kv("checks_hist", st.checks_hist);
  kv("checks_timing", st.checks_timing);
  kv("checks_prog", st.checks_prog);
  kv("checks_drf", st.checks_drf);
  kv("cmp_runs", st.cmp_runs);
  kv("stall_resp", st.stall_resp);
  kv("stall_mem", st.stall_mem);
  kv("locks", st.locks);
  kv("flush_words", st.flush_words);
  kv("backtoback", st.backtoback);
  kv("distinct_sigs", st.sig.size());
  j += "\"cls\":{";
  for (int i = 0; i < K_N; i++) j += fmt("%s\"%s\":%llu", i ? "," : "", KN[i], (unsigned long long)st.cls[i]);
  j += "},\"types\":{";
  for (int i = 0; i < 16; i++) j += fmt("%s\"%s\":%llu", i ? "," : "", TN[i], (unsigned long long)st.types[i]);
  j += "},\"samples\":[";
  for (size_t i = 0; i < st.samples.size(); i++) j += string(i ? "," : "") + "\"" + jesc(st.samples[i]) + "\"";
  j += "],\"viol\":[";
  for (size_t i = 0; i < vio.size(); i++)
    j += string(i ? "," : "") +
         fmt("{\"mon\":\"%s\",\"props\":%u,\"ep\":%llu,\"cycle\":%llu,\"msg\":\"", vio[i].mon.c_str(), vio[i].props,
             (unsigned long long)vio[i].ep, (unsigned long long)vio[i].cyc) +
         jesc(vio[i].msg) + "\"}";
  j += "]";
  if (o.trace) j += ",\"trace\":\"" + jesc(tr) + "\"";
  j += "}";
  return strdup(j.c_str());
}
extern "C" void engine_free(char* p) { free(p); }
