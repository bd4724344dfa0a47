// vecabs: disjunctive abstract interpretation of container operations over LLVM IR.
//   vecabs FILE.bc SPEC [-shard i/n] [-only RE] [-v] [-maxstates N]
// Domain: affine forms over sizes/indices/offsets with a polyhedral emptiness test (lin.h), bit
// provenance for packed words, an array-segmentation content domain for every memory region, and
// an ownership typestate per heap block.  Nothing is executed; no solver is called.
// Output: one JSON object per line: {"fn":..,"spec":..,"paths":..,"undecided":[..],"viol":[..]}
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include <memory>
#include <functional>
#include <deque>
#include <regex>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include "lin.h"
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;

namespace va {
struct Split { vector<vector<Lin>> alts; };
struct Choice { int n; };
struct Unsup { string why; };
struct Viol { string cls, msg; };
struct Dead {};                                    // path not feasible / process exits

static vector<string> VN;                          // variable names (per spec run)
static int newVar(const string &n) { VN.push_back(n); return (int)VN.size() - 1; }

struct Node; typedef shared_ptr<Node> NodeP;
struct Seg { int w; bool isConst; uint64_t cv; Lin L; int from; };   // bits [from, from+w) of L (two's complement)
struct Value {
  enum K { TOP, INT, PTR, MEM, AGG } k = TOP;
  int w = 0; bool lin = false; Lin L; vector<Seg> segs;     // INT (signed value when lin)
  int reg = -1;                                             // PTR: region (-1: absolute), offset L; MEM: region
  NodeP ver; i64 size = 0;                                  // MEM: version, offset L, size
  vector<Value> agg;
  static Value I(int w, Lin l) { Value v; v.k = INT; v.w = w; v.lin = true; v.L = l; return v; }
  static Value P(int reg, Lin off) { Value v; v.k = PTR; v.w = 64; v.reg = reg; v.L = off; return v; }
};
struct Node {
  enum K { SCAL, COPY, ZERO, JUNK, EV, MOVED, DEAD } k;
  Lin lo, hi; Value v; int sreg = -1; NodeP sver; Lin delta; int ev = -1; NodeP next; int id = 0;
  ~Node() { NodeP n = std::move(next); while (n && n.use_count() == 1) { NodeP m = std::move(n->next); n = std::move(m); } }
};
struct Piece { enum K { INIT, SCAL, ZERO, JUNK, EV, MOVED, DEAD } k; Lin len; int reg = -1; Lin off; Value v; int ev = -1; int id = 0; };
struct Event { int sreg; NodeP sver; Lin soff, len; };       // element-wise copy construction
struct Cell { i64 lo, hi; Value v; };
struct Region {
  string name; Lin lo, hi; NodeP log; vector<Cell> base;
  bool fresh = false, writable = true;
  bool block = false, arc = false; int n = 0; bool ext = false, last = false, freed = false;
  Lin elems; bool hasElems = false;     // live elements initially present at [0, elems*esz)
  bool stack = false;
  int baseVar = -1;
  bool exclusive() const { return block && !freed && (last || (n == 1 && !ext)); }
  bool gone() const { return block && (freed || (n == 0 && !last)); }
};

struct TypeInfo { string n; int esz, small; bool pack, trivial, shareable; };
static const TypeInfo TYPES[] = {{"char", 1, 15, true, true, true}, {"int", 4, 3, false, true, true}, {"long", 8, 1, false, true, true},
  {"blob", 24, 0, false, true, true}, {"obj", 8, 0, false, false, true}, {"uniq", 8, 0, false, false, false}};

// ---------------------------------------------------------------- spec
struct SpecArg { string name; char kind; };
struct Spec { string op, pre, post, types; vector<SpecArg> args; int line; string raw; };

static string trim(string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static vector<string> splitOn(const string &s, char c) { vector<string> o; string cur; for (char x : s) if (x == c) { o.push_back(trim(cur)); cur.clear(); } else cur += x; o.push_back(trim(cur)); return o; }

static vector<Spec> loadSpecs(const char *f) {
  std::ifstream in(f); string l; vector<Spec> out; int ln = 0;
  while (std::getline(in, l)) {
    ln++; l = trim(l); if (l.empty() || l[0] == '#' ) continue;
    auto p = splitOn(l, '|'); if (p.size() < 3) { fprintf(stderr, "bad spec line %d\n", ln); exit(2); }
    Spec s; s.line = ln; s.pre = p[1]; s.post = p[2]; s.raw = l;
    size_t o = p[0].find('('); s.op = trim(p[0].substr(0, o)); string as = p[0].substr(o + 1, p[0].find(')') - o - 1);
    size_t at = s.op.find('@'); if (at != string::npos) { s.types = s.op.substr(at + 1); s.op = s.op.substr(0, at); }
    std::stringstream ss(as); string a; while (ss >> a) s.args.push_back({a.substr(0, a.find(':')), a[a.find(':') + 1]});
    out.push_back(s);
  }
  return out;
}

// ---------------------------------------------------------------- state
struct State {
  vector<Lin> facts; std::map<Lin, bool> known; std::map<Lin, size_t> unknown;
  vector<Value> env; vector<Region> regs; vector<Event> evs; vector<Piece> destroyed;
  std::map<std::pair<Lin, int>, std::pair<int, int>> dec;
  std::map<std::tuple<int, Node *, Lin, int>, Value> loads;
  std::map<std::tuple<int, Lin, int>, int> unk;
  std::map<std::pair<int, int>, bool> ordered;
  const BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::const_iterator it; std::map<const BasicBlock *, int> visits;
  std::map<const BasicBlock *, std::pair<int, Lin>> loopK;
  vector<int> choices; size_t ci = 0; int nid = 1; int steps = 0; bool atExit = false;
  vector<NodeP> pins;

  // ---- arithmetic queries
  void fact(const Lin &l) { if (l.isConst()) { if (l.c < 0) throw Dead(); return; } facts.push_back(l); }
  void eqFact(const Lin &a, const Lin &b) { fact(a - b); fact(b - a); }
  bool entails(const Lin &l) {
    if (l.isConst()) return l.c >= 0;
    Lin k = norm(l);
    auto it = known.find(k); if (it != known.end() && it->second) return true;
    auto &no = unknown[k]; if (no == facts.size() + 1) return false;
    Lin neg = -k; neg.c -= 1;
    std::vector<const Lin *> cs; relevant(neg, cs); cs.push_back(&neg);
    bool r = fm::infeasible(cs);
    if (r) known[k] = true; else no = facts.size() + 1;
    return r;
  }
  static Lin norm(const Lin &l) { i64 g = 0; for (auto &p : l.t) g = (i64)fm::gcd(g, p.second); if (g <= 1) return l; Lin r = l; r.c = fdiv(l.c, g); for (auto &p : r.t) p.second /= g; return r; }
  void relevant(const Lin &q, std::vector<const Lin *> &out) {
    std::set<int> vs; for (auto &p : q.t) vs.insert(p.first);
    vector<char> used(facts.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < facts.size(); i++) if (!used[i]) { bool hit = false; for (auto &p : facts[i].t) if (vs.count(p.first)) { hit = true; break; }
        if (hit) { used[i] = 1; out.push_back(&facts[i]); for (auto &p : facts[i].t) if (vs.insert(p.first).second) ch = true; } } }
  }
  bool ask(const Lin &l) {               // l >= 0 ?
    if (l.isConst()) return l.c >= 0;
    Lin n = -l; n.c -= 1;
    auto it = known.find(norm(n)); if (it != known.end() && it->second) return false;
    if (entails(l)) return true;
    if (entails(n)) return false;
    throw Split{{{l}, {n}}};
  }
  bool askEq(const Lin &a, const Lin &b) { Lin d = a - b; if (d.isConst()) return d.c == 0; if (!ask(d)) return false; return ask(-d); }
  bool sure(const Lin &l) { return entails(l); }
  bool sureEq(const Lin &a, const Lin &b) { Lin d = a - b; return d.isConst() ? d.c == 0 : entails(d) && entails(-d); }
  int choose(int n) { if (ci < choices.size()) return choices[ci++]; throw Choice{n}; }
  // floor(l / m), l mod m
  std::pair<Lin, Lin> divmod(const Lin &l, i64 m) {
    Lin q, r; q.c = fdiv(l.c, m); r.c = l.c - q.c * m;
    for (auto &p : l.t) { i64 k = fdiv(p.second + m / 2, m), rem = p.second - k * m; if (k) q.t.push_back({p.first, k}); if (rem) r.t.push_back({p.first, rem}); }
    if (r.t.empty()) return {q, r};
    for (int j : {0, 1, -1}) { Lin x = r - Lin(m * j); if (entails(x) && entails(Lin(m - 1) - x)) return {q + Lin(j), x}; }
    auto key = std::make_pair(r, (int)(m > 0x40000000 ? -(int)(m >> 31) : m));
    auto it = dec.find(key);
    if (it == dec.end()) {
      int a = newVar("q"); it = dec.emplace(key, std::make_pair(a, 0)).first;
      Lin B = r - Lin::var(a) * m; fact(B); fact(Lin(m - 1) - B);
    }
    Lin A = Lin::var(it->second.first); return {q + A, r - A * m};
  }
};
static Lin pow2(int n) { return Lin((i64)1 << n); }

// ---------------------------------------------------------------- interpreter
struct Result { long paths = 0, states = 0, cases = 0; std::map<string, string> viol; std::map<string, int> undecided; };
static bool VERBOSE = false; static long MAXSTATES = 60000; static double MAXSEC = 60, DEADLINE = 1e9; static const auto BEGIN = std::chrono::steady_clock::now();

struct Interp {
  const Function &F; const DataLayout &DL; const TypeInfo &T; Result &R; const Spec &SP; string caseName;
  std::map<const llvm::Value *, int> idx; DominatorTree DT; LoopInfo LI;
  Interp(const Function &f, const TypeInfo &t, Result &r, const Spec &sp) : F(f), DL(f.getParent()->getDataLayout()), T(t), R(r), SP(sp), DT(const_cast<Function &>(f)), LI(DT) {
    int n = 0; for (auto &a : F.args()) idx[&a] = n++; for (auto &b : F) for (auto &i : b) idx[&i] = n++; nvals = n; }
  int nvals;

  // ---- words
  static void pushSeg(vector<Seg> &o, Seg s) {
    if (s.w <= 0) return;
    if (!o.empty()) { Seg &b = o.back();
      if (b.isConst && s.isConst && b.w + s.w <= 64) { b.cv |= s.cv << b.w; b.w += s.w; return; }
      if (!b.isConst && !s.isConst && b.L == s.L && b.from + b.w == s.from) { b.w += s.w; return; } }
    o.push_back(s);
  }
  static uint64_t mask(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
  static Value W(int w, vector<Seg> segs) { Value v; v.k = Value::INT; v.w = w; v.segs = std::move(segs); return v; }
  static vector<Seg> toSegs(const Value &v) {
    if (!v.lin) return v.segs;
    if (v.L.isConst()) return {{v.w, true, (uint64_t)v.L.c & mask(v.w), Lin(), 0}};
    return {{v.w, false, 0, v.L, 0}};
  }
  static vector<Seg> sub(const vector<Seg> &s, int from, int w) {
    vector<Seg> o; int p = 0;
    for (auto &g : s) { int a = std::max(p, from), b = std::min(p + g.w, from + w);
      if (a < b) { Seg n = g; n.w = b - a; if (g.isConst) n.cv = (g.cv >> (a - p)) & mask(n.w); else n.from = g.from + (a - p); pushSeg(o, n); }
      p += g.w; }
    return o;
  }
  // value of bits [from, from+w) of L as a number in [0, 2^w)
  Lin bits(State &S, const Lin &L, int from, int w) {
    Lin x = L;
    if (from) x = S.divmod(x, (i64)1 << from).first;
    if (w >= 63) throw Unsup{"wide bit slice"};
    return S.divmod(x, (i64)1 << w).second;
  }
  Lin segVal(State &S, const Seg &g) { return g.isConst ? Lin((i64)g.cv) : bits(S, g.L, g.from, g.w); }
  // signed value
  Lin asLin(State &S, const Value &v) {
    if (v.lin) return v.L;
    Lin r(0); int p = 0;
    for (size_t i = 0; i < v.segs.size(); i++) {
      const Seg &g = v.segs[i]; bool top = p + g.w == v.w;
      if (top && !g.isConst) {
        // signed interpretation of the top segment
        Lin x = g.L; if (g.from) x = S.divmod(x, (i64)1 << g.from).first;
        i64 h = (i64)1 << (g.w - 1);
        if (g.w < 63 ) { if (S.sure(x + Lin(h)) && S.sure(Lin(h - 1) - x)) { r = r + x * ((i64)1 << p); p += g.w; continue; }
          if (g.w == v.w || true) { Lin u = S.divmod(x, (i64)1 << g.w).second; if (S.ask(Lin(h - 1) - u)) r = r + u * ((i64)1 << p); else r = r + (u - Lin(h * 2)) * ((i64)1 << p); } }
        else if (g.from == 0 && p == 0) r = g.L; else throw Unsup{"wide segment"};
      } else if (g.isConst) {
        uint64_t c = g.cv; i64 sc = top && g.w < 64 && (c >> (g.w - 1)) ? (i64)(c | ~mask(g.w)) : (i64)c;
        r = r + Lin((i64)((uint64_t)sc << p));
      } else r = r + bits(S, g.L, g.from, g.w) * ((i64)1 << p);
      p += g.w;
    }
    return r;
  }
  Lin asUnsigned(State &S, const Value &v) { Lin l = asLin(S, v); if (v.w >= 63) { return l; } return S.ask(l) ? l : l + pow2(v.w); }

  // ---- memory
  Region &reg(State &S, int r) { return S.regs[r]; }
  int addReg(State &S, Region r) { S.regs.push_back(std::move(r)); return (int)S.regs.size() - 1; }
  void access(State &S, int r, const Lin &off, const Lin &size, bool write, const char *what) {
    if (r < 0) throw Viol{"oob", string(what) + " through a null or invalid pointer"};
    Region &g = reg(S, r);
    if (g.gone()) throw Viol{"uaf", string(what) + " touches " + g.name + " after this owner released it"};
    if (!S.ask(off - g.lo)) throw Viol{"oob", string(what) + " before the start of " + g.name + " (offset " + str(off, VN) + ")"};
    if (!S.ask(g.hi - off - size)) throw Viol{"oob", string(what) + " beyond the end of " + g.name + " (offset " + str(off, VN) + ", length " + str(size, VN) + ", extent " + str(g.hi, VN) + ")"};
    if (write) {
      if (g.block && !g.exclusive()) throw Viol{"cow", string(what) + " writes " + g.name + ", which another vector may share"};
      if (!g.writable) throw Viol{"cow", string(what) + " writes read-only " + g.name};
    }
  }
  void push(State &S, int r, Node n) { if (!S.ask(n.hi - n.lo - Lin(1))) return; n.id = S.nid++; n.next = reg(S, r).log; reg(S, r).log = std::make_shared<Node>(std::move(n)); }
  void resolve(State &S, int r, NodeP nd, const Lin &lo, const Lin &hi, vector<Piece> &out, int depth = 0) {
    if (depth > 200) throw Unsup{"deep copy chain"};
    if (lo == hi) return;
    if (!S.ask(hi - lo - Lin(1))) return;
    while (nd) {
      if (S.sure(nd->lo - hi) || S.sure(lo - nd->hi)) { nd = nd->next; continue; }
      if (S.ask(nd->lo - hi)) { nd = nd->next; continue; }
      if (S.ask(lo - nd->hi)) { nd = nd->next; continue; }
      Lin a = S.ask(lo - nd->lo) ? lo : nd->lo, b = S.ask(nd->hi - hi) ? hi : nd->hi;
      if (!(a == lo)) resolve(S, r, nd->next, lo, a, out, depth + 1);
      if (nd->k == Node::COPY) resolve(S, nd->sreg, nd->sver, a + nd->delta, b + nd->delta, out, depth + 1);
      else {
        Piece p; p.len = b - a; p.id = nd->id; p.off = a - nd->lo;
        switch (nd->k) { case Node::SCAL: p.k = Piece::SCAL; p.v = nd->v; break; case Node::ZERO: p.k = Piece::ZERO; break; case Node::JUNK: p.k = Piece::JUNK; break;
          case Node::EV: p.k = Piece::EV; p.ev = nd->ev; break; case Node::MOVED: p.k = Piece::MOVED; break; default: p.k = Piece::DEAD; }
        out.push_back(p);
      }
      if (!(b == hi)) resolve(S, r, nd->next, b, hi, out, depth + 1);
      return;
    }
    Piece p; p.k = reg(S, r).fresh ? Piece::JUNK : Piece::INIT; p.reg = r; p.off = lo; p.len = hi - lo; out.push_back(p);
  }
  // follow copy-construction events to the values they copied
  void resolveVal(State &S, int r, NodeP nd, const Lin &lo, const Lin &hi, vector<Piece> &out) {
    vector<Piece> ps; resolve(S, r, nd, lo, hi, ps);
    for (auto &p : ps) { if (p.k == Piece::EV) { Event e = S.evs[p.ev]; resolveVal(S, e.sreg, e.sver, e.soff + p.off, e.soff + p.off + p.len, out); } else out.push_back(p); }
  }
  Value loadAs(State &S, const Value &m, bool ptr) {
    auto key = std::make_tuple(m.reg, m.ver.get(), m.L, (int)m.size * 2 + ptr);
    auto it = S.loads.find(key); if (it != S.loads.end()) return it->second;
    if (T.pack && !ptr && m.size == 4 && m.L == Lin(12)) {   // an inline string: the bytes below the size nibble are elements
      Value mb = m; mb.L = Lin(15); mb.size = 1; Value lb = loadAs(S, mb, false);
      if (lb.k == Value::INT) { auto nb = sub(toSegs(lb), 0, 4); if (nb.size() == 1 && nb[0].isConst && nb[0].cv == 0) {
        int v = newVar("content"); S.fact(Lin::var(v)); S.fact(pow2(24) - Lin(1) - Lin::var(v)); vector<Seg> sg; pushSeg(sg, {24, false, 0, Lin::var(v), 0}); for (auto &g : toSegs(lb)) pushSeg(sg, g);
        Value res = W(32, sg); canon(S, res); S.pins.push_back(m.ver); S.loads[key] = res; return res; } } }
    vector<Piece> ps; resolveVal(S, m.reg, m.ver, m.L, m.L + Lin(m.size), ps);
    Value res;
    if (ptr) {
      if (ps.size() == 1) { Piece &p = ps[0];
        if (p.k == Piece::SCAL && p.v.k == Value::PTR && p.off == Lin(0)) res = p.v;
        else if (p.k == Piece::SCAL && p.v.k == Value::INT && p.v.lin && p.v.L.isConst()) res = Value::P(-1, p.v.L);
        else if (p.k == Piece::ZERO || p.k == Piece::MOVED) res = Value::P(-1, Lin(0));
        else if (p.k == Piece::INIT && p.off.isConst()) { for (auto &c : reg(S, p.reg).base) if (c.lo == p.off.c && c.hi == p.off.c + 8 && c.v.k == Value::PTR) res = c.v; } }
    } else {
      vector<Seg> segs; bool ok = true;
      for (auto &p : ps) {
        if (!p.len.isConst()) { ok = false; break; }
        int nb = (int)p.len.c * 8;
        if (p.k == Piece::ZERO || p.k == Piece::MOVED) pushSeg(segs, {nb, true, 0, Lin(), 0});
        else if (p.k == Piece::SCAL && p.v.k == Value::INT && p.off.isConst()) { auto v = toSegs(p.v); for (auto &g : sub(v, (int)p.off.c * 8, nb)) pushSeg(segs, g); }
        else if (p.k == Piece::INIT) initBits(S, p.reg, p.off, (int)p.len.c, segs);
        else { auto uk = std::make_tuple(-1000 - p.id, p.off, nb); auto u = S.unk.find(uk); int v; if (u == S.unk.end()) { v = newVar("u"); S.unk[uk] = v; if (nb < 63) { S.fact(Lin::var(v)); S.fact(pow2(nb) - Lin(1) - Lin::var(v)); } } else v = u->second; pushSeg(segs, {nb, false, 0, Lin::var(v), 0}); }
      }
      if (ok) { res = W((int)m.size * 8, segs); canon(S, res); }
      else if (m.size > 1 && m.size <= 4) {       // partly overwritten by elements: only the last byte is looked at
        Value mb = m; mb.L = m.L + Lin(m.size - 1); mb.size = 1; Value lb = loadAs(S, mb, false);
        if (lb.k == Value::INT) { int nb = (int)(m.size - 1) * 8, v = newVar("content"); S.fact(Lin::var(v)); S.fact(pow2(nb) - Lin(1) - Lin::var(v)); vector<Seg> sg; pushSeg(sg, {nb, false, 0, Lin::var(v), 0}); for (auto &g : toSegs(lb)) pushSeg(sg, g); res = W((int)m.size * 8, sg); canon(S, res); } }
    }
    if (res.k == Value::TOP) return res;
    S.pins.push_back(m.ver); S.loads[key] = res;
    return res;
  }
  void initBits(State &S, int r, const Lin &off, int nbytes, vector<Seg> &segs) {
    Region &g = reg(S, r);
    int i = 0;
    while (i < nbytes) {
      bool done = false;
      if (off.isConst()) { i64 at = off.c + i;
        for (auto &c : g.base) if (c.lo <= at && at < c.hi && c.v.k == Value::INT) { int n = (int)std::min<i64>(c.hi - at, nbytes - i);
          auto v = toSegs(c.v); for (auto &s : sub(v, (int)(at - c.lo) * 8, n * 8)) pushSeg(segs, s); i += n; done = true; break; } }
      if (done) continue;
      int n = 1; if (off.isConst()) { while (i + n < nbytes) { bool hit = false; for (auto &c : g.base) if (c.lo <= off.c + i + n && off.c + i + n < c.hi) hit = true; if (hit) break; n++; } } else n = nbytes - i;
      auto uk = std::make_tuple(r, off + Lin(i), n); auto u = S.unk.find(uk); int v;
      if (u == S.unk.end()) { v = newVar("content"); S.unk[uk] = v; if (n < 8) { S.fact(Lin::var(v)); S.fact(pow2(n * 8) - Lin(1) - Lin::var(v)); } } else v = u->second;
      pushSeg(segs, {n * 8, false, 0, Lin::var(v), 0}); i += n;
    }
  }
  // words that are simply one number become affine
  void canon(State &S, Value &v) {
    if (v.k != Value::INT || v.lin) return;
    bool allc = true; for (auto &g : v.segs) if (!g.isConst) allc = false;
    if (allc || (v.segs.size() == 1 && v.segs[0].from == 0 && v.segs[0].w == v.w && v.w < 64 &&
                 S.sure(v.segs[0].L + pow2(v.w - 1)) && S.sure(pow2(v.w - 1) - Lin(1) - v.segs[0].L)) ||
        (v.segs.size() == 1 && v.w == 64 && v.segs[0].from == 0)) {
      Lin l = allc ? asLin(S, v) : v.segs[0].L; v.lin = true; v.L = l; v.segs.clear(); return; }
    // [L low bits][0...]: a non-negative number that fits
    if (v.segs.size() == 2 && !v.segs[0].isConst && v.segs[0].from == 0 && v.segs[1].isConst && v.segs[1].cv == 0 && v.segs[0].w < 62) {
      const Lin &L = v.segs[0].L; if (S.sure(L) && S.sure(pow2(v.segs[0].w) - Lin(1) - L)) { Lin l = L; v.lin = true; v.L = l; v.segs.clear(); return; }
      if (S.sure(L + pow2(v.segs[0].w)) && S.sure(-L - Lin(1))) { Lin l = L + pow2(v.segs[0].w); v.lin = true; v.L = l; v.segs.clear(); return; } }
  }

  // ---- operands
  Value constant(State &S, const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) return Value::I(I->getBitWidth(), Lin(I->getBitWidth() == 1 ? (i64)I->getZExtValue() : I->getSExtValue()));
    if (isa<ConstantPointerNull>(C)) return Value::P(-1, Lin(0));
    if (isa<UndefValue>(C)) { Value v; if (C->getType()->isIntegerTy()) return Value::I(C->getType()->getIntegerBitWidth(), Lin(0)); if (C->getType()->isPointerTy()) return Value::P(-1, Lin(0)); if (auto *ST = dyn_cast<StructType>(C->getType())) { v.k = Value::AGG; v.agg.resize(ST->getNumElements()); } return v; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) { if (CE->getOpcode() == Instruction::IntToPtr) if (auto *I = dyn_cast<ConstantInt>(CE->getOperand(0))) return Value::P(-1, Lin(I->getSExtValue())); }
    if (isa<ConstantAggregateZero>(C)) { Value v; if (auto *ST = dyn_cast<StructType>(C->getType())) { v.k = Value::AGG; for (unsigned i = 0; i < ST->getNumElements(); i++) v.agg.push_back(constant(S, Constant::getNullValue(ST->getElementType(i)))); } return v; }
    return Value();
  }
  Value raw(State &S, const llvm::Value *V) { if (auto *C = dyn_cast<Constant>(V)) return constant(S, C); return S.env[idx.at(V)]; }
  Value intv(State &S, const llvm::Value *V) { Value v = raw(S, V); if (v.k == Value::MEM) v = loadAs(S, v, false); if (v.k != Value::INT) throw Unsup{"integer of unknown provenance"}; return v; }
  Lin lin(State &S, const llvm::Value *V) { return asLin(S, intv(S, V)); }
  Value ptrOf(State &S, Value v) { if (v.k == Value::MEM) v = loadAs(S, v, true); return v; }
  Value ptrv(State &S, const llvm::Value *V) { Value v = ptrOf(S, raw(S, V)); if (v.k != Value::PTR) throw Unsup{"pointer of unknown provenance"}; return v; }
  Lin addr(State &S, const Value &p) { if (p.reg < 0) return p.L; Region &g = reg(S, p.reg);
    if (g.baseVar < 0) { g.baseVar = newVar("&" + g.name); S.fact(Lin::var(g.baseVar) + g.lo - Lin(65536)); S.fact(pow2(47) - Lin::var(g.baseVar) - g.hi); }
    return Lin::var(g.baseVar) + p.L; }
  void order(State &S, int a, int b) {    // two distinct regions do not overlap
    if (a < 0 || b < 0 || a == b) return; if (a > b) std::swap(a, b);
    if (S.ordered.count({a, b})) return;
    Lin A = addr(S, Value::P(a, Lin(0))), B = addr(S, Value::P(b, Lin(0)));
    Lin ab = B + reg(S, b).lo - A - reg(S, a).hi, ba = A + reg(S, a).lo - B - reg(S, b).hi;
    if (S.sure(ab) || S.sure(ba)) { S.ordered[{a, b}] = true; return; }
    throw Split{{{ab}, {ba}}};
  }
  bool cmp(State &S, CmpInst::Predicate P, Value a, Value b, bool ptr) {
    if (ptr) {
      if (a.reg != b.reg) {
        if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) { if (a.reg >= 0 || b.reg >= 0) return P == CmpInst::ICMP_NE; }
        order(S, a.reg, b.reg);
        a = Value::I(64, addr(S, a)); b = Value::I(64, addr(S, b));
      } else { a = Value::I(64, a.L); b = Value::I(64, b.L); }
      switch (P) { case CmpInst::ICMP_ULT: P = CmpInst::ICMP_SLT; break; case CmpInst::ICMP_ULE: P = CmpInst::ICMP_SLE; break; case CmpInst::ICMP_UGT: P = CmpInst::ICMP_SGT; break; case CmpInst::ICMP_UGE: P = CmpInst::ICMP_SGE; break; default:; }
    }
    // bitwise comparison of a partially known word with a constant
    if ((P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) && (!a.lin || !b.lin)) {
      vector<Seg> x = toSegs(a), y = toSegs(b); bool xc = true, yc = true; for (auto &g : x) if (!g.isConst) xc = false; for (auto &g : y) if (!g.isConst) yc = false;
      if (xc && !yc) std::swap(x, y), yc = true;
      if (yc) {
        bool eq = true; int p = 0;
        for (auto &g : x) { auto o = sub(y, p, g.w); uint64_t cv = 0; int sh = 0; for (auto &q : o) { cv |= q.cv << sh; sh += q.w; } if (g.isConst && g.cv != cv) eq = false; p += g.w; }
        p = 0;
        if (eq) for (auto &g : x) { auto o = sub(y, p, g.w); uint64_t cv = 0; int sh = 0; for (auto &q : o) { cv |= q.cv << sh; sh += q.w; }
          if (!g.isConst && g.w >= 62 && cv == 0 && g.from == 0) { if (!S.askEq(g.L, Lin(0))) { eq = false; break; } }
          else if (!g.isConst && !S.askEq(bits(S, g.L, g.from, g.w), Lin((i64)cv))) { eq = false; break; } p += g.w; }
        return (P == CmpInst::ICMP_EQ) == eq;
      }
    }
    // the sign of a word is its top bit
    if ((P == CmpInst::ICMP_SLT || P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_SLE || P == CmpInst::ICMP_SGE)) {}
    if (P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE) {
      Lin x = asLin(S, a), y = asLin(S, b);
      if (a.w < 63) { if (!S.ask(x)) x = x + pow2(a.w); if (!S.ask(y)) y = y + pow2(a.w); }
      else { bool xn = !S.ask(x), yn = !S.ask(y); if (xn != yn) { bool lt = yn; return (P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE) ? lt : !lt; } }
      switch (P) { case CmpInst::ICMP_ULT: return S.ask(y - x - Lin(1)); case CmpInst::ICMP_ULE: return S.ask(y - x); case CmpInst::ICMP_UGT: return S.ask(x - y - Lin(1)); default: return S.ask(x - y); }
    }
    Lin x = asLin(S, a), y = asLin(S, b);
    switch (P) {
      case CmpInst::ICMP_EQ: return S.askEq(x, y); case CmpInst::ICMP_NE: return !S.askEq(x, y);
      case CmpInst::ICMP_SLT: return S.ask(y - x - Lin(1)); case CmpInst::ICMP_SLE: return S.ask(y - x);
      case CmpInst::ICMP_SGT: return S.ask(x - y - Lin(1)); default: return S.ask(x - y);
    }
  }
  Value wrap(State &S, int w, Lin l, bool nsw) {
    if (w == 64) return Value::I(64, l);
    Lin lo = l + pow2(w - 1), hi = pow2(w - 1) - Lin(1) - l;
    if (nsw) { if (!S.sure(lo)) { if (S.sure(-lo - Lin(1))) throw Dead(); S.fact(lo); } if (!S.sure(hi)) { if (S.sure(-hi - Lin(1))) throw Dead(); S.fact(hi); } return Value::I(w, l); }
    if (!S.ask(lo)) return Value::I(w, l + pow2(w));
    if (!S.ask(hi)) return Value::I(w, l - pow2(w));
    return Value::I(w, l);
  }
  Value binop(State &S, const BinaryOperator &B) {
    int w = B.getType()->getIntegerBitWidth(); auto op = B.getOpcode();
    Value a = intv(S, B.getOperand(0)), b = intv(S, B.getOperand(1));
    if (w == 1) { i64 x = asLin(S, a).c & 1, y = asLin(S, b).c & 1; return Value::I(1, Lin(op == Instruction::And ? x & y : op == Instruction::Or ? x | y : x ^ y)); }
    bool nsw = false; if (auto *O = dyn_cast<OverflowingBinaryOperator>(&B)) nsw = O->hasNoSignedWrap();
    switch (op) {
      case Instruction::Add: return wrap(S, w, asLin(S, a) + asLin(S, b), nsw);
      case Instruction::Sub: return wrap(S, w, asLin(S, a) - asLin(S, b), nsw);
      case Instruction::Mul: { Lin x = asLin(S, a), y = asLin(S, b); if (x.isConst()) std::swap(x, y); if (!y.isConst()) throw Unsup{"product of two unknowns"}; return wrap(S, w, x * y.c, nsw); }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { Lin y = asLin(S, b); if (!y.isConst() || y.c <= 0) throw Unsup{"division by unknown"}; Lin x = asLin(S, a);
        if (!S.ask(x)) { if (op == Instruction::UDiv || op == Instruction::URem) throw Unsup{"unsigned division of a negative"}; auto d = S.divmod(-x, y.c); return Value::I(w, op == Instruction::SDiv ? -d.first : -d.second); }
        auto d = S.divmod(x, y.c); return Value::I(w, op == Instruction::UDiv || op == Instruction::SDiv ? d.first : d.second); }
      case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        vector<Seg> x = toSegs(a), y = toSegs(b), o; int p = 0; size_t i = 0, j = 0; int xi = 0, yi = 0;
        while (p < w) {
          int n = std::min(x[i].w - xi, y[j].w - yi);
          auto part = [&](const Seg &g, int at) { Seg s = g; s.w = n; if (g.isConst) s.cv = (g.cv >> at) & mask(n); else s.from = g.from + at; return s; };
          Seg u = part(x[i], xi), v = part(y[j], yi);
          if (!u.isConst && !v.isConst && !(u.L == v.L && u.from == v.from)) for (Seg *g : {&u, &v}) if (g->w < 63) { Lin l = segVal(S, *g); if (l.isConst()) { g->isConst = true; g->cv = (uint64_t)l.c & mask(n); } }
          if (v.isConst == false && u.isConst) std::swap(u, v);
          // u arbitrary, v const unless both unknown
          if (v.isConst) {
            int q = 0;
            while (q < n) { int bit = (v.cv >> q) & 1, e = q; while (e < n && (int)((v.cv >> e) & 1) == bit) e++;
              Seg s; s.w = e - q; Seg uu = u; uu.w = e - q; if (u.isConst) uu.cv = (u.cv >> q) & mask(e - q); else uu.from = u.from + q;
              if (op == Instruction::And) s = bit ? uu : Seg{e - q, true, 0, Lin(), 0};
              else if (op == Instruction::Or) s = bit ? Seg{e - q, true, mask(e - q), Lin(), 0} : uu;
              else { if (!bit) s = uu; else if (uu.isConst) s = Seg{e - q, true, ~uu.cv & mask(e - q), Lin(), 0};
                     else { s = uu; s.L = Lin(-1) - uu.L; } }     // complement of two's complement bits
              pushSeg(o, s); q = e; }
          } else if (u.L == v.L && u.from == v.from) { if (op == Instruction::Xor) pushSeg(o, {n, true, 0, Lin(), 0}); else pushSeg(o, u); }
          else if (op == Instruction::Or && a.lin && b.lin && S.sure(a.L) && S.sure(b.L)) { Lin r = Lin::var(newVar("or")); S.fact(r - a.L); S.fact(r - b.L); S.fact(a.L + b.L - r); return Value::I(w, r); }
          else throw Unsup{"bitwise operation on two unknown words"};
          p += n; xi += n; yi += n; if (xi == x[i].w) { i++; xi = 0; } if (yi == y[j].w) { j++; yi = 0; }
        }
        Value r = W(w, o); canon(S, r); return r; }
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Lin y = asLin(S, b); if (!y.isConst() || y.c < 0 || y.c >= w) throw Unsup{"shift by unknown"}; int n = (int)y.c; vector<Seg> x = toSegs(a), o;
        if (op == Instruction::Shl) { pushSeg(o, {n, true, 0, Lin(), 0}); for (auto &g : sub(x, 0, w - n)) pushSeg(o, g); }
        else { o = sub(x, n, w - n);
          if (op == Instruction::LShr) pushSeg(o, {n, true, 0, Lin(), 0});
          else { Seg t = x.back(); if (t.isConst) pushSeg(o, {n, true, (t.cv >> (t.w - 1)) ? mask(n) : 0, Lin(), 0}); else { Lin l = asLin(S, a); auto d = S.divmod(l, (i64)1 << n); return Value::I(w, d.first); } } }
        Value r = W(w, o); canon(S, r); return r; }
      default: throw Unsup{string("operator ") + B.getOpcodeName()};
    }
  }

  // ---- effects
  void copyRange(State &S, int dr, Lin d, int sr, Lin s, Lin n) {
    Node x; x.k = Node::COPY; x.lo = d; x.hi = d + n; x.sreg = sr; x.sver = reg(S, sr).log; x.delta = s - d; push(S, dr, x);
  }
  void memcopy(State &S, const Value &d, const Value &s, const Lin &n, bool move) {
    if (!S.ask(n)) throw Viol{"oob", string(move ? "memmove" : "memcpy") + " with a negative length"};
    if (!S.ask(n - Lin(1))) return;
    access(S, d.reg, d.L, n, true, move ? "memmove" : "memcpy"); access(S, s.reg, s.L, n, false, move ? "memmove source" : "memcpy source");
    if (!move && d.reg == s.reg) { Lin df = d.L - s.L; if (!(S.sure(df - n) || S.sure(-df - n) || S.sureEq(d.L, s.L))) { if (!S.ask(df - n) && !S.ask(-df - n) && !S.askEq(d.L, s.L)) throw Viol{"overlap", "memcpy between overlapping ranges of " + reg(S, d.reg).name}; } }
    copyRange(S, d.reg, d.L, s.reg, s.L, n);
  }
  void destroyRange(State &S, int r, Lin lo, Lin hi, const char *what = "destructor") {
    if (!S.ask(hi - lo - Lin(1))) return;
    access(S, r, lo, hi - lo, true, what);
    vector<Piece> ps; resolve(S, r, reg(S, r).log, lo, hi, ps);
    for (auto &p : ps) { 
      if (p.k == Piece::JUNK || p.k == Piece::DEAD) throw Viol{"destroy", string(what) + " runs on " + (p.k == Piece::DEAD ? "already destroyed" : "never constructed") + " elements of " + reg(S, r).name};
      if (p.k == Piece::INIT) { Region &g = reg(S, p.reg); if (g.hasElems && !S.ask(g.elems * T.esz - p.off - p.len)) throw Viol{"destroy", string(what) + " runs beyond the live elements of " + g.name}; if (!g.hasElems && g.block) throw Viol{"destroy", string(what) + " runs on storage of " + g.name + " that holds no elements"}; } }
    for (auto &p : ps) if (p.k == Piece::INIT || p.k == Piece::EV) S.destroyed.push_back(p);
    Node x; x.k = Node::DEAD; x.lo = lo; x.hi = hi; push(S, r, x);
  }
  void liveCheck(State &S, int r, Lin lo, Lin hi, const char *what) {
    vector<Piece> ps; resolve(S, r, reg(S, r).log, lo, hi, ps);
    for (auto &p : ps) if (p.k == Piece::JUNK || p.k == Piece::DEAD) throw Viol{"uaf", string(what) + " reads " + (p.k == Piece::DEAD ? "destroyed" : "never constructed") + " elements of " + reg(S, r).name};
  }
  void copyCtor(State &S, const Value &d, const Value &s, const Lin &n) {
    if (!S.ask(n - Lin(1))) return;
    access(S, d.reg, d.L, n, true, "copy constructor"); access(S, s.reg, s.L, n, false, "copy constructor source");
    liveCheck(S, s.reg, s.L, s.L + n, "copy constructor");
    S.evs.push_back({s.reg, reg(S, s.reg).log, s.L, n});
    Node x; x.k = Node::EV; x.lo = d.L; x.hi = d.L + n; x.ev = (int)S.evs.size() - 1; push(S, d.reg, x);
  }
  void moveCtor(State &S, const Value &d, const Value &s, const Lin &n) {
    if (!S.ask(n - Lin(1))) return;
    access(S, d.reg, d.L, n, true, "move constructor"); access(S, s.reg, s.L, n, true, "move constructor source");
    liveCheck(S, s.reg, s.L, s.L + n, "move constructor");
    if (d.reg == s.reg && !S.ask(d.L - s.L - n) && !S.ask(s.L - d.L - n)) throw Viol{"overlap", "move constructor onto its own source"};
    copyRange(S, d.reg, d.L, s.reg, s.L, n);
    Node x; x.k = Node::MOVED; x.lo = s.L; x.hi = s.L + n; push(S, s.reg, x);
  }
  int newBlock(State &S, const string &name, Lin bytes, bool arc) { Region g; g.name = name; g.lo = Lin(0); g.hi = bytes; g.block = true; g.arc = arc; g.n = 1; return addReg(S, g); }
  Value alloc(State &S, const CallBase &C, bool arc) {
    Value p = ptrv(S, C.getArgOperand(0)); access(S, p.reg, p.L, Lin(8), true, "allocation size");
    Value m; m.k = Value::MEM; m.reg = p.reg; m.ver = reg(S, p.reg).log; m.L = p.L; m.size = 8; m = loadAs(S, m, false); if (m.k != Value::INT) throw Unsup{"allocation size"};
    Lin req = asLin(S, m);
    if (!S.ask(req)) throw Dead();                   // the allocator exits
    if (!S.ask(Lin(0x7fffffff) - req)) throw Dead();
    int B = newVar("B"); Lin b = Lin::var(B); S.fact(b - req); S.fact(Lin(0x7fffffff) - b); S.fact(b - Lin(arc ? 112 : 128));
    int r = newBlock(S, "new block", b, arc); reg(S, r).fresh = true;
    Node x; x.k = Node::SCAL; x.lo = p.L; x.hi = p.L + Lin(8); x.v = Value::I(64, b); push(S, p.reg, x);
    return Value::P(r, Lin(0));
  }
  void dealloc(State &S, const CallBase &C, bool arc) {
    Value p = ptrv(S, C.getArgOperand(0)); Lin n = lin(S, C.getArgOperand(1));
    if (p.reg < 0 || !reg(S, p.reg).block) throw Viol{"free", "deallocates a pointer that is not an allocation" + (p.reg >= 0 ? " (" + reg(S, p.reg).name + ")" : "")};
    Region &g = reg(S, p.reg);
    if (g.freed) throw Viol{"free", "deallocates " + g.name + " twice"};
    if (g.arc != arc) throw Viol{"free", "wrong deallocator for " + g.name};
    if (!S.askEq(p.L, Lin(arc ? -16 : 0))) throw Viol{"free", "deallocates " + g.name + " through an interior pointer (offset " + str(p.L, VN) + ")"};
    if (g.gone()) throw Viol{"free", "deallocates " + g.name + " although this owner already released it"};
    if (!g.exclusive()) throw Viol{"free", "deallocates " + g.name + " while another vector may still share it"};
    if (!S.ask(g.hi - n)) throw Viol{"free", "deallocation size " + str(n, VN) + " exceeds the allocation"};
    if (!S.ask(n - g.hi + Lin(2 * T.esz - 1))) throw Viol{"free", "deallocation size " + str(n, VN) + " does not match the allocation"};
    g.freed = true; g.n = 0; g.last = false;
  }
  Value rmw(State &S, const AtomicRMWInst &A) {
    Value p = ptrv(S, A.getPointerOperand());
    if (p.reg < 0 || !reg(S, p.reg).block || !reg(S, p.reg).arc || !S.askEq(p.L, Lin(-16))) throw Viol{"rc", "reference count update at a place that is not a block header"};
    if (reg(S, p.reg).gone()) throw Viol{"uaf", "reference count of " + reg(S, p.reg).name + " updated after this owner released it"};
    Lin d = lin(S, A.getValOperand()); if (!d.isConst()) throw Unsup{"reference count delta"};
    i64 k = A.getOperation() == AtomicRMWInst::Add ? d.c : A.getOperation() == AtomicRMWInst::Sub ? -d.c : 99;
    Region *g = &reg(S, p.reg);
    if (k == 1) { g->n++; int v = newVar("refs"); S.fact(Lin::var(v)); S.fact(pow2(31) - Lin(2) - Lin::var(v)); return Value::I(32, Lin::var(v)); }
    if (k != -1) throw Viol{"rc", "reference count of " + g->name + " changed by something other than one"};
    if (g->last || g->n == 0) throw Viol{"rc", "reference count of " + g->name + " dropped twice by the same owner"};
    bool lastOne = false;
    if (g->n == 1) lastOne = !g->ext ? true : S.choose(2) == 0;
    g = &reg(S, p.reg);
    if (lastOne) { g->n = 0; g->last = true; g->ext = false; return Value::I(32, Lin(0)); }
    g->n--; int v = newVar("refs"); S.fact(Lin::var(v) - Lin(1)); S.fact(pow2(31) - Lin(1) - Lin::var(v)); return Value::I(32, Lin::var(v));
  }
  Value atomicLoad(State &S, const LoadInst &L) {
    Value p = ptrv(S, L.getPointerOperand());
    if (p.reg < 0 || !reg(S, p.reg).block || !reg(S, p.reg).arc || !S.askEq(p.L, Lin(-16))) throw Viol{"rc", "reference count read at a place that is not a block header"};
    Region *g = &reg(S, p.reg);
    if (g->gone()) throw Viol{"uaf", "reference count of " + g->name + " read after this owner released it"};
    bool zero;
    if (g->last) throw Unsup{"count read after the last release"};
    if (g->n >= 2) zero = false; else if (!g->ext) zero = true; else zero = S.choose(2) == 0;
    g = &reg(S, p.reg);
    if (zero) { g->ext = false; return Value::I(32, Lin(0)); }
    int v = newVar("refs"); S.fact(Lin::var(v) - Lin(1)); S.fact(pow2(31) - Lin(1) - Lin::var(v)); return Value::I(32, Lin::var(v));
  }
  void storeVal(State &S, const Value &p, Value v, Type *Ty) {
    i64 sz = (i64)DL.getTypeStoreSize(Ty);
    if (auto *ST = dyn_cast<StructType>(Ty)) { if (v.k != Value::AGG) throw Unsup{"aggregate store"}; auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) storeVal(S, Value::P(p.reg, p.L + Lin((i64)SL->getElementOffset(i))), v.agg[i], ST->getElementType(i)); return; }
    access(S, p.reg, p.L, Lin(sz), true, "store");
    if (v.k == Value::MEM && v.size == sz) { Node x; x.k = Node::COPY; x.lo = p.L; x.hi = p.L + Lin(sz); x.sreg = v.reg; x.sver = v.ver; x.delta = v.L - p.L; push(S, p.reg, x); return; }
    Node x; x.k = v.k == Value::TOP ? Node::JUNK : Node::SCAL; x.lo = p.L; x.hi = p.L + Lin(sz);
    if (v.k == Value::INT && v.w == 1) v = Value::I(8, asLin(S, v)); x.v = v; push(S, p.reg, x);
  }

  // ---- loops: for (...) with affine inductions, summarised in one step
  bool bodyEffect(const Instruction &I) { return isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<CallBase>(I); }
  struct Eff { int kind; Value d, s; Lin ds, ss; i64 size; };   // 0 dtor 1 copy 2 move 3 store-copy 4 store-zero
  bool trySummarise(State &S, const BasicBlock *H, const BasicBlock *from, const Loop *Lp) {
    if (!Lp || Lp->getHeader() != H || Lp->contains(from)) return false;
    const BasicBlock *latch = Lp->getLoopLatch(); if (!latch) return false;
    if (!Lp->getSubLoops().empty()) return false;
    // syntactic shape: every header phi advances by a constant
    struct Ind { const PHINode *p; Value init; Lin stride; };
    vector<Ind> inds;
    for (auto &I : *H) { auto *P = dyn_cast<PHINode>(&I); if (!P) break;
      const llvm::Value *nx = P->getIncomingValueForBlock(latch); Lin st; bool ok = false;
      if (nx == P) ok = true;
      else if (auto *G = dyn_cast<GEPOperator>(nx)) { if (G->getPointerOperand() == P) { APInt c(64, 0); if (G->accumulateConstantOffset(DL, c)) { st = Lin(c.getSExtValue()); ok = true; } } }
      else if (auto *B = dyn_cast<BinaryOperator>(nx)) { if (B->getOperand(0) == P) if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) { if (B->getOpcode() == Instruction::Add) { st = Lin(C->getSExtValue()); ok = true; } else if (B->getOpcode() == Instruction::Sub) { st = Lin(-C->getSExtValue()); ok = true; } } }
      if (!ok) return false;
      inds.push_back({P, raw(S, P->getIncomingValueForBlock(from)), st}); }
    if (inds.empty()) return false;
    // straight-line body with a single exit test in the header
    vector<const BasicBlock *> body; const BasicBlock *b = H;
    const BranchInst *hb = dyn_cast<BranchInst>(H->getTerminator()); if (!hb || !hb->isConditional()) return false;
    bool contTrue = Lp->contains(hb->getSuccessor(0)); if (contTrue == Lp->contains(hb->getSuccessor(1))) return false;
    b = hb->getSuccessor(contTrue ? 0 : 1);
    while (b != H) { if (body.size() > 12 || !Lp->contains(b)) return false; body.push_back(b); auto *t = b->getTerminator();
      if (auto *br = dyn_cast<BranchInst>(t)) { if (br->isConditional()) return false; b = br->getSuccessor(0); }
      else if (auto *iv = dyn_cast<InvokeInst>(t)) b = iv->getNormalDest(); else return false; }
    auto *ic = dyn_cast<ICmpInst>(hb->getCondition()); if (!ic || ic->getParent() != H) return false;
    for (auto &I : *H) if (bodyEffect(I) && !isa<DbgInfoIntrinsic>(I)) return false;
    auto kit = S.loopK.find(H); int kv;
    if (kit == S.loopK.end()) { kv = newVar("k"); S.loopK[H] = {kv, Lin(-1)}; S.fact(Lin::var(kv)); } else kv = kit->second.first;
    Lin K = Lin::var(kv);
    // symbolic iteration k
    for (auto &d : inds) { Value v = d.init;
      if (d.p->getType()->isPointerTy()) { v = ptrOf(S, v); if (v.k != Value::PTR) return false; v.L = v.L + K * d.stride.c; }
      else { if (v.k == Value::MEM) v = loadAs(S, v, false); if (v.k != Value::INT) return false; v = Value::I(v.w, asLin(S, v)); v.L = v.L + K * d.stride.c; }
      S.env[idx.at(d.p)] = v; }
    auto pure = [&](const Instruction &I) { if (isa<PHINode>(I) || I.isTerminator() || isa<DbgInfoIntrinsic>(I) || &I == ic) return true; if (bodyEffect(I)) return false; S.env[idx.at(&I)] = evalPure(S, I); return true; };
    for (auto &I : *H) pure(I);
    // trip count
    Value a, c; bool ptr = ic->getOperand(0)->getType()->isPointerTy();
    if (ptr) { a = ptrv(S, ic->getOperand(0)); c = ptrv(S, ic->getOperand(1)); if (a.reg != c.reg) return false; } else { a = intv(S, ic->getOperand(0)); c = intv(S, ic->getOperand(1)); }
    Lin x = ptr ? a.L : asLin(S, a), y = ptr ? c.L : asLin(S, c); auto P = contTrue ? ic->getPredicate() : ic->getInversePredicate();
    Lin N;
    auto evalN = [&](Lin E) {     // continue while E(k) >= 0
      i64 be = E.coef(kv); if (be >= 0) return false; Lin al = subst(E, kv, Lin(0));
      if (!S.ask(al)) { N = Lin(0); return true; }
      N = S.divmod(al, -be).first + Lin(1); return true; };
    bool ok = false;
    switch (P) {
      case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: ok = evalN(y - x - Lin(1)); break;
      case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: ok = evalN(y - x); break;
      case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: ok = evalN(x - y - Lin(1)); break;
      case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: ok = evalN(x - y); break;
      case CmpInst::ICMP_NE: { Lin D = x - y; i64 be = D.coef(kv); if (!be) return false; Lin al = subst(D, kv, Lin(0)); if (be > 0) { al = -al; be = -be; }
        auto dm = S.divmod(al, -be); if (!S.sureEq(dm.second, Lin(0))) return false; if (!S.ask(dm.first)) throw Viol{"oob", "loop that never reaches its end"}; N = dm.first; ok = true; break; }
      default: return false; }
    if (!ok) return false;
    if (!ptr && (P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE)) { if (!S.sure(subst(x, kv, Lin(0))) || !S.sure(subst(y, kv, Lin(0)))) return false; }
    if (S.sure(-N)) N = Lin(0); else if (!S.ask(N - Lin(1))) N = Lin(0);
    vector<Eff> effs;
    if (!(N == Lin(0))) {
      S.fact(N - Lin(1) - K);
      for (auto *bb : body) for (auto &I : *bb) {
        if (auto *Ld = dyn_cast<LoadInst>(&I); Ld && !effs.empty()) {   // a load after a store of the same iteration
          Value p = ptrv(S, Ld->getPointerOperand()); i64 sz = (i64)DL.getTypeStoreSize(Ld->getType());
          for (auto &e : effs) if (e.d.reg == p.reg && !S.sure(p.L - e.d.L - Lin(e.size)) && !S.sure(e.d.L - p.L - Lin(sz))) return false; }
        if (pure(I) && !isa<InvokeInst>(I)) continue;
        Eff e; e.size = T.esz;
        if (auto *C = dyn_cast<CallBase>(&I)) { string n = callee(*C); if (ignorable(n)) continue;
          if (n == "_ZN3ObjD1Ev" || n == "_ZN4UniqD1Ev" || n == "_ZN3ObjD2Ev" || n == "_ZN4UniqD2Ev") { e.kind = 0; e.d = ptrv(S, C->getArgOperand(0)); }
          else if (n == "_ZN3ObjC1ERKS_" || n == "_ZN3ObjC2ERKS_") { e.kind = 1; e.d = ptrv(S, C->getArgOperand(0)); e.s = ptrv(S, C->getArgOperand(1)); }
          else if (n == "_ZN3ObjC1EOS_" || n == "_ZN4UniqC1EOS_") { e.kind = 2; e.d = ptrv(S, C->getArgOperand(0)); e.s = ptrv(S, C->getArgOperand(1)); }
          else if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0) { Lin l = lin(S, C->getArgOperand(2)); if (!l.isConst()) return false; e.kind = 3; e.size = l.c; e.d = ptrv(S, C->getArgOperand(0)); e.s = ptrv(S, C->getArgOperand(1)); }
          else return false; }
        else if (auto *St = dyn_cast<StoreInst>(&I)) { e.d = ptrv(S, St->getPointerOperand()); e.size = (i64)DL.getTypeStoreSize(St->getValueOperand()->getType());
          Value v = raw(S, St->getValueOperand());
          if (v.k == Value::MEM && v.size == e.size) { e.kind = 3; e.s = Value::P(v.reg, v.L); } else if (v.k == Value::INT && v.lin && v.L == Lin(0)) e.kind = 4; else return false; }
        else return false;
        effs.push_back(e); }
      for (auto &e : effs) { e.ds = Lin(e.d.L.coef(kv)); if (e.kind >= 1 && e.kind <= 3) { e.ss = Lin(e.s.L.coef(kv)); if (e.ss.c != e.ds.c) return false; }
        if (e.ds.c != e.size && e.ds.c != -e.size) return false; }
      if (effs.size() > 1) { // several effects per iteration: only if they do not interact
        for (size_t i = 0; i < effs.size(); i++) for (size_t j = i + 1; j < effs.size(); j++) if (effs[i].kind == effs[j].kind && effs[i].kind != 0 && effs[i].kind != 3) return false; }
    }
    // commit
    auto base = [&](const Value &p, i64 st) { Value q = p; q.L = subst(p.L, kv, Lin(0)); if (st < 0) q.L = q.L + (N - Lin(1)) * st; return q; };
    int copies = 0; for (auto &e : effs) if (e.kind == 3) copies++;
    if (copies > 1) {   // simultaneous copies (a swap): every element is read before it is overwritten
      struct Cp { Value d, s; Lin len; }; vector<Cp> cs;
      for (auto &e : effs) { if (e.kind != 3) throw Unsup{"loop with copies and other effects"}; cs.push_back({base(e.d, e.ds.c), base(e.s, e.ds.c), N * e.size}); if (e.ds.c != effs[0].ds.c) throw Unsup{"loop with copies of different strides"}; }
      auto apart = [&](const Value &p, const Lin &pl, const Value &q, const Lin &ql) { return p.reg != q.reg || S.sure(p.L - q.L - ql) || S.sure(q.L - p.L - pl); };
      for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < cs.size(); j++) {
        if (i < j && !apart(cs[i].d, cs[i].len, cs[j].d, cs[j].len)) throw Unsup{"loop writing the same range twice"};
        if (!(cs[i].s.reg == cs[j].d.reg && S.sureEq(cs[i].s.L, cs[j].d.L)) && !apart(cs[i].s, cs[i].len, cs[j].d, cs[j].len)) throw Unsup{"loop reading what it overwrites"}; }
      if (!(N == Lin(0))) {
        for (auto &c : cs) { access(S, c.d.reg, c.d.L, c.len, true, "store"); access(S, c.s.reg, c.s.L, c.len, false, "load"); }
        vector<decltype(reg(S, 0).log)> pre; for (auto &c : cs) pre.push_back(reg(S, c.s.reg).log);
        for (size_t i = 0; i < cs.size(); i++) { auto &c = cs[i]; Node x; x.k = Node::COPY; x.lo = c.d.L; x.hi = c.d.L + c.len; x.sreg = c.s.reg; x.sver = pre[i]; x.delta = c.s.L - c.d.L; push(S, c.d.reg, x); } }
      effs.clear();
    }
    for (auto &e : effs) {
      Value d = base(e.d, e.ds.c); Lin len = N * e.size;
      if (e.kind == 0) destroyRange(S, d.reg, d.L, d.L + len);
      else if (e.kind == 4) { access(S, d.reg, d.L, len, true, "store"); Node x; x.k = Node::ZERO; x.lo = d.L; x.hi = d.L + len; push(S, d.reg, x); }
      else { Value s = base(e.s, e.ds.c);
        if (e.kind == 1) copyCtor(S, d, s, len); else if (e.kind == 2) moveCtor(S, d, s, len);
        else { if (d.reg == s.reg) { bool fwd = e.ds.c > 0; if (!(fwd ? S.sure(s.L - d.L) : S.sure(d.L - s.L)) && !S.sure(d.L - s.L - len) && !S.sure(s.L - d.L - len)) throw Unsup{"overlapping element-wise copy"}; }
          memcopy(S, d, s, len, true); } } }
    for (auto &d : inds) { Value v = d.init; if (d.p->getType()->isPointerTy()) v = ptrOf(S, v); else { if (v.k == Value::MEM) v = loadAs(S, v, false); v = Value::I(v.w, asLin(S, v)); }
      v.L = v.L + N * d.stride.c; S.env[idx.at(d.p)] = v; }
    S.loopK.erase(H);
    return true;
  }

  static bool ignorable(const string &n) { return n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.experimental.noalias", 0) == 0 || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.stack", 0) == 0; }
  static string callee(const CallBase &C) { auto *f = C.getCalledFunction(); return f ? f->getName().str() : ""; }

  Value evalPure(State &S, const Instruction &I) {
    if (auto *B = dyn_cast<BinaryOperator>(&I)) return binop(S, *B);
    if (auto *C = dyn_cast<ICmpInst>(&I)) { bool ptr = C->getOperand(0)->getType()->isPointerTy();
      Value a = ptr ? ptrv(S, C->getOperand(0)) : intv(S, C->getOperand(0)), b = ptr ? ptrv(S, C->getOperand(1)) : intv(S, C->getOperand(1));
      return Value::I(1, Lin(cmp(S, C->getPredicate(), a, b, ptr))); }
    if (auto *Sl = dyn_cast<SelectInst>(&I)) { Lin c = lin(S, Sl->getCondition()); if (!c.isConst()) { c = Lin(!S.askEq(c, Lin(0))); } return raw(S, c.c ? Sl->getTrueValue() : Sl->getFalseValue()); }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      Value p = ptrOf(S, raw(S, G->getPointerOperand())); MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
      if (!cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co)) throw Unsup{"gep"};
      if (p.k != Value::PTR) return Value();
      Lin off = Lin(co.getSExtValue()); for (auto &kv : vo) off = off + lin(S, kv.first) * kv.second.getSExtValue();
      p.L = p.L + off; return p; }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (L->isAtomic()) return atomicLoad(S, *L);
      Value p = ptrv(S, L->getPointerOperand()); i64 sz = (i64)DL.getTypeStoreSize(L->getType());
      if (L->getType()->isStructTy()) throw Unsup{"aggregate load"};
      access(S, p.reg, p.L, Lin(sz), false, "load");
      Value m; m.k = Value::MEM; m.w = (int)sz * 8; m.reg = p.reg; m.ver = reg(S, p.reg).log; m.L = p.L; m.size = sz; return m; }
    if (auto *C = dyn_cast<CastInst>(&I)) {
      switch (C->getOpcode()) {
        case Instruction::SExt: { Value v = intv(S, C->getOperand(0)); return v.w == 1 ? Value::I(C->getType()->getIntegerBitWidth(), -asLin(S, v)) : Value::I(C->getType()->getIntegerBitWidth(), asLin(S, v)); }
        case Instruction::ZExt: { Value v = intv(S, C->getOperand(0)); if (v.w == 1) return Value::I(C->getType()->getIntegerBitWidth(), asLin(S, v));
          if (v.lin) return Value::I(C->getType()->getIntegerBitWidth(), asUnsigned(S, v));
          auto s = v.segs; vector<Seg> o; for (auto &g : s) pushSeg(o, g); int nw = C->getType()->getIntegerBitWidth(); pushSeg(o, {nw - v.w, true, 0, Lin(), 0}); Value r = W(nw, o); canon(S, r); return r; }
        case Instruction::Trunc: { Value v = intv(S, C->getOperand(0)); int nw = C->getType()->getIntegerBitWidth();
          if (v.lin && nw > 1 && nw < 63 && S.sure(v.L + pow2(nw - 1)) && S.sure(pow2(nw - 1) - Lin(1) - v.L)) return Value::I(nw, v.L);
          if (v.lin && nw > 1 && nw < 63) { auto d = S.divmod(v.L, (i64)1 << nw).second; return S.ask(pow2(nw - 1) - Lin(1) - d) ? Value::I(nw, d) : Value::I(nw, d - pow2(nw)); }
          Value r = W(nw, sub(toSegs(v), 0, nw)); canon(S, r); if (nw == 1 && !r.lin) r = Value::I(1, bits(S, r.segs[0].L, r.segs[0].from, 1)); if (nw == 1) { r = Value::I(1, Lin(!S.askEq(r.L, Lin(0)))); } return r; }
        case Instruction::PtrToInt: { Value p = ptrv(S, C->getOperand(0)); return Value::I(64, addr(S, p)); }
        case Instruction::IntToPtr: { Value v = intv(S, C->getOperand(0)); Lin l = asLin(S, v); if (l.isConst()) return Value::P(-1, l); throw Unsup{"inttoptr"}; }
        default: throw Unsup{string("cast ") + C->getOpcodeName()};
      } }
    if (auto *V = dyn_cast<InsertValueInst>(&I)) { Value a = raw(S, V->getAggregateOperand()); if (a.k != Value::AGG) { a.k = Value::AGG; if (auto *ST = dyn_cast<StructType>(V->getType())) a.agg.resize(ST->getNumElements()); } if (V->getNumIndices() == 1 && V->getIndices()[0] < a.agg.size()) a.agg[V->getIndices()[0]] = raw(S, V->getInsertedValueOperand()); return a; }
    if (auto *V = dyn_cast<ExtractValueInst>(&I)) { Value a = raw(S, V->getAggregateOperand()); if (a.k != Value::AGG || V->getNumIndices() != 1) return Value(); return a.agg[V->getIndices()[0]]; }
    if (isa<FreezeInst>(I)) return raw(S, I.getOperand(0));
    if (auto *A = dyn_cast<AllocaInst>(&I)) { Region g; g.name = "local"; g.lo = Lin(0); g.hi = Lin((i64)DL.getTypeAllocSize(A->getAllocatedType())); g.stack = true; g.fresh = true; return Value::P(addReg(S, g), Lin(0)); }
    throw Unsup{string("instruction ") + I.getOpcodeName()};
  }
  Value call(State &S, const CallBase &C) {
    string n = callee(C);
    if (n.empty()) throw Unsup{"indirect call"};
    if (ignorable(n)) return Value();
    auto A = [&](int i) { return C.getArgOperand(i); };
    if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memcpy" || n == "memmove") { Lin l = lin(S, A(2)); if (S.sure(-l) && S.sure(l)) return Value(); if (!S.ask(l - Lin(1)) ) { if (!S.ask(l)) throw Viol{"oob", "memcpy with a negative length"}; return Value(); } memcopy(S, ptrv(S, A(0)), ptrv(S, A(1)), l, n.find("memmove") != string::npos); return ptrOf(S, raw(S, A(0))); }
    if (n.rfind("llvm.memset", 0) == 0 || n == "memset") { Lin l = lin(S, A(2)); if (!S.ask(l)) throw Viol{"oob", "memset with a negative length"}; if (!S.ask(l - Lin(1))) return Value(); Value d = ptrv(S, A(0)); access(S, d.reg, d.L, l, true, "memset"); Value v = intv(S, A(1));
      Node x; x.k = v.lin && v.L == Lin(0) ? Node::ZERO : Node::JUNK; x.lo = d.L; x.hi = d.L + l; push(S, d.reg, x); return Value(); }
    if (n == "_ZN3ObjD1Ev" || n == "_ZN4UniqD1Ev" || n == "_ZN3ObjD2Ev" || n == "_ZN4UniqD2Ev") { Value p = ptrv(S, A(0)); if (p.reg < 0) throw Viol{"oob", "destructor of an invalid pointer"}; destroyRange(S, p.reg, p.L, p.L + Lin(T.esz)); return Value(); }
    if (n == "_ZN3ObjC1ERKS_" || n == "_ZN3ObjC2ERKS_") { Value d = ptrv(S, A(0)), s = ptrv(S, A(1)); copyCtor(S, d, s, Lin(T.esz)); return Value(); }
    if (n == "_ZN3ObjC1EOS_" || n == "_ZN4UniqC1EOS_") { Value d = ptrv(S, A(0)), s = ptrv(S, A(1)); moveCtor(S, d, s, Lin(T.esz)); return Value(); }
    if (n == "fu_ARC_ALLOC") return alloc(S, C, true);
    if (n == "fu_UNIQ_ALLOC") return alloc(S, C, false);
    if (n == "fu_ARC_DEALLOC") { dealloc(S, C, true); return Value(); }
    if (n == "fu_UNIQ_DEALLOC") { dealloc(S, C, false); return Value(); }
    if (n == "strlen") { Value p = ptrv(S, A(0)); if (p.reg < 0 || !S.sureEq(p.L, Lin(0))) throw Unsup{"strlen"}; for (auto &kv : S.unk) if (std::get<0>(kv.first) == -7 - p.reg) return Value::I(64, Lin::var(kv.second)); throw Unsup{"strlen of unknown"}; }
    if (n == "__assert_fail") {   // an aborting build may stop on arguments outside the contract, never on valid ones
      if (SP.post.find("trap") != string::npos || SP.post.find("viewin") != string::npos || SP.post.find("rangein") != string::npos) throw Dead();
      throw Viol{"assert", "assertion can fail"}; }
    if (n == "abort" || n == "exit" || n == "_exit") throw Dead();
    if (C.getCalledFunction()->isIntrinsic()) {
      if (auto *M = dyn_cast<MinMaxIntrinsic>(&C)) { Value a = intv(S, A(0)), b = intv(S, A(1)); bool t = cmp(S, M->getPredicate(), a, b, false); return t ? a : b; }
    }
    throw Unsup{"call of " + n};
  }

  // ---- exploration
  struct Ctx2; 
  std::function<void(State &)> exitCheck;
  string where(const Instruction *I) {
    string s; if (!I) return "";
    for (const DILocation *L = I->getDebugLoc(); L; L = L->getInlinedAt()) { string f = L->getFilename().str(); size_t p = f.find("include/"); if (p != string::npos) f = f.substr(p); else if (f.rfind('/') != string::npos) f = f.substr(f.rfind('/') + 1);
      if (f == "rt_vec.cpp" && !s.empty()) break;
      string fn = L->getScope() && L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""; if (!s.empty()) s += " <- "; s += f + ":" + std::to_string(L->getLine()) + " (" + fn + ")"; }
    return s;
  }
  void report(State &S, const Viol &v, const Instruction *I) {
    string loc = where(I), loc0 = loc.substr(0, loc.find(" <- "));
    string fnn = loc0.empty() ? "" : loc0.substr(loc0.find('(') + 1, loc0.find(')') - loc0.find('(') - 1);
    string file = loc0.substr(0, loc0.find(':'));
    string key = SP.op + ":" + v.cls + ":" + (I ? file + ":" + fnn : string("result"));
    if (R.viol.count(key)) return;
    string cond; int n = 0; for (auto &f : S.facts) { string t = str(f, VN); if (t.find('&') != string::npos) continue; if (n++) cond += ", "; cond += t + ">=0"; if (n > 24) break; }
    R.viol[key] = v.msg + (I ? " at " + loc : string(" when the operation returns")) + " [element type " + T.n + "; " + caseName + "] when " + cond;
  }
  void enter(State &S, const BasicBlock *to) {
    const BasicBlock *from = S.bb;
    if (++S.visits[to] > 8) throw Unsup{"loop not summarised"};
    if (trySummarise(S, to, from, LI.getLoopFor(to))) { S.prev = from; S.bb = to; S.it = to->getFirstNonPHIIt(); return; }
    vector<std::pair<int, Value>> up; for (auto &I : *to) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; up.push_back({idx.at(P), raw(S, P->getIncomingValueForBlock(from))}); }
    for (auto &u : up) S.env[u.first] = u.second;
    S.prev = from; S.bb = to; S.it = to->getFirstNonPHIIt();
  }
  void run(State init) {
    std::deque<State> work; work.push_back(std::move(init));
    auto t0 = std::chrono::steady_clock::now();
    while (!work.empty()) {
      if (R.states > MAXSTATES || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > MAXSEC || std::chrono::duration<double>(std::chrono::steady_clock::now() - BEGIN).count() > DEADLINE) { R.undecided["state limit"]++; return; }
      State S = std::move(work.back()); work.pop_back(); R.states++;
      const Instruction *I = nullptr;
      try {
        if (!S.bb) { S.bb = &F.getEntryBlock(); S.it = S.bb->begin(); }
        while (true) {
          if (++S.steps > 40000) throw Unsup{"step limit"};
          I = nullptr; S.ci = 0;
          if (S.atExit) { exitCheck(S); R.paths++; break; }
          I = &*S.it;
          if (auto *B = dyn_cast<BranchInst>(I)) {
            const BasicBlock *to; if (B->isConditional()) { Lin c = lin(S, B->getCondition()); bool t = c.isConst() ? c.c != 0 : !S.askEq(c, Lin(0)); to = B->getSuccessor(t ? 0 : 1); } else to = B->getSuccessor(0);
            trans(S, to);
          } else if (auto *Sw = dyn_cast<SwitchInst>(I)) {
            Lin c = lin(S, Sw->getCondition()); const BasicBlock *to = Sw->getDefaultDest(); for (auto &cs : Sw->cases()) if (S.askEq(c, Lin(cs.getCaseValue()->getSExtValue()))) { to = cs.getCaseSuccessor(); break; }
            trans(S, to);
          } else if (auto *V = dyn_cast<InvokeInst>(I)) {
            if (!S.env[idx.at(I)].agg.size()) { Value r = call(S, *V); r.agg.resize(1); S.env[idx.at(I)] = r; }   // executed once
            Value keep = S.env[idx.at(I)]; trans(S, V->getNormalDest()); S.env[idx.at(I)].agg.clear();
          } else if (isa<ReturnInst>(I)) { S.atExit = true; }
          else if (isa<UnreachableInst>(I)) throw Dead();
          else if (auto *C = dyn_cast<CallInst>(I)) { Value r = call(S, *C); S.env[idx.at(I)] = r; ++S.it; }
          else if (auto *St = dyn_cast<StoreInst>(I)) { if (St->isAtomic()) throw Unsup{"atomic store"}; Value p = ptrv(S, St->getPointerOperand()); storeVal(S, p, raw(S, St->getValueOperand()), St->getValueOperand()->getType()); ++S.it; }
          else if (auto *A = dyn_cast<AtomicRMWInst>(I)) { Value r = rmw(S, *A); S.env[idx.at(I)] = r; ++S.it; }
          else { Value r; try { r = evalPure(S, *I); } catch (Unsup &u) { if (I->getType()->isVoidTy() || isa<LoadInst>(I)) throw; r = Value(); } S.env[idx.at(I)] = r; ++S.it; }
          S.choices.clear(); S.ci = 0;
        }
      } catch (Split &sp) { for (auto &alt : sp.alts) { State N = S; try { for (auto &f : alt) N.fact(f); work.push_back(std::move(N)); } catch (Dead &) {} } }
      catch (Choice &c) { for (int i = 0; i < c.n; i++) { State N = S; N.choices.push_back(i); work.push_back(std::move(N)); } }
      catch (Dead &) {}
      catch (Unsup &u) { R.undecided[u.why]++; if (VERBOSE) { string s; raw_string_ostream o(s); if (I) I->print(o); fprintf(stderr, "UNSUP %s: %s [%s] %s\n  %s\n", SP.op.c_str(), u.why.c_str(), caseName.c_str(), where(I).c_str(), s.c_str()); } }
      catch (Viol &v) { report(S, v, I); R.paths++; }
    }
  }
  void trans(State &S, const BasicBlock *to) {
    if (!LI.isLoopHeader(to)) { enter(S, to); return; }
    State N = S;        // a loop summary may split half-way through
    try { enter(N, to); }
    catch (Split &sp) { S.facts = N.facts; S.dec = N.dec; S.loads = N.loads; S.unk = N.unk; S.pins = N.pins; S.ordered = N.ordered; S.loopK = N.loopK; for (size_t i = 0; i < S.regs.size(); i++) S.regs[i].baseVar = N.regs[i].baseVar; throw; }
    S = std::move(N);
  }
};
#include "vecspec.h"
} // namespace va
int main(int argc, char **argv) { return va::run_main(argc, argv); }
