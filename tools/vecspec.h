// Entry states, exit obligations and driver of vecabs.
struct ArgInfo { string name; char kind; string variant; int sreg = -1; int dreg = -1; Lin doff; Lin size; int block = -1; string vec; Lin L, R; bool hasData = false; };
struct Dec { bool small; int reg; Lin off, size, capa; int block = -1; bool sign = false; };
struct Runner {
  Interp &X; const TypeInfo &T; const Spec &SP; Result &R;
  std::map<string, Lin> names; vector<ArgInfo> args; std::map<string, int> byName;
  Runner(Interp &x) : X(x), T(x.T), SP(x.SP), R(x.R) {}

  // ---- expressions
  Lin expr(const string &e) {
    Lin r; size_t i = 0; i64 sign = 1; string s; for (char c : e) if (c != ' ') s += c;
    while (i < s.size()) {
      if (s[i] == '+') { sign = 1; i++; continue; } if (s[i] == '-') { sign = -1; i++; continue; }
      size_t j = i; while (j < s.size() && s[j] != '+' && s[j] != '-') j++;
      string t = s.substr(i, j - i); i64 k = 1; size_t st = t.find('*'); if (st != string::npos) { k = std::stoll(t.substr(0, st)); t = t.substr(st + 1); }
      if (isdigit(t[0])) r = r + Lin(std::stoll(t) * k * sign);
      else { auto it = names.find(t); if (it == names.end()) { fprintf(stderr, "spec %d: unknown name %s\n", SP.line, t.c_str()); ::exit(2); } r = r + it->second * (k * sign); }
      i = j; sign = 1; }
    return r;
  }
  // ---- building
  int vecRegion(State &S, const string &name) { Region g; g.name = "vector " + name; g.lo = Lin(0); g.hi = Lin(16); return X.addReg(S, g); }
  static void cell(Region &g, i64 lo, i64 hi, Value v) { g.base.push_back({lo, hi, v}); }
  Lin freshInt(State &S, const string &n, i64 lo, i64 hi) { Lin v = Lin::var(newVar(n)); S.fact(v - Lin(lo)); S.fact(Lin(hi) - v); return v; }
  void buildVec(State &S, ArgInfo &a, const string &var, const ArgInfo *twin) {
    a.variant = var; a.sreg = vecRegion(S, a.name);
    if (var == "null" || var == "zero") { Region &g = S.regs[a.sreg]; cell(g, 0, 8, Value::P(-1, Lin(0))); cell(g, 8, 12, Value::I(32, Lin(0))); cell(g, 12, 16, Value::I(32, Lin(0))); a.size = Lin(0); if (T.small) { a.dreg = a.sreg; a.doff = Lin(0); } else { a.dreg = -1; a.doff = Lin(0); } a.hasData = true; names["#" + a.name] = a.size; return; }
    if (var == "small") {
      Lin s = freshInt(S, "#" + a.name, 0, T.small); a.size = s; a.dreg = a.sreg; a.doff = Lin(0); a.hasData = true; Region &g = S.regs[a.sreg];
      if (T.pack) cell(g, 15, 16, Interp::W(8, {{4, true, 0, Lin(), 0}, {4, false, 0, s, 0}}));
      else cell(g, 12, 16, Interp::W(32, {{4, true, 0, Lin(), 0}, {4, false, 0, s, 0}, {24, true, 0, Lin(), 0}}));
      names["#" + a.name] = s; return; }
    Lin c, s; int blk;
    if (twin) { blk = twin->block; c = names["c#" + twin->name]; if (T.trivial) { s = freshInt(S, "#" + a.name, 0, 0x7fffffff); S.fact(c - s); } else s = twin->size; S.regs[blk].n++; }
    else {
      c = freshInt(S, "capa(" + a.name + ")", T.small + 1, 0x7fffffff); s = freshInt(S, "#" + a.name, 0, 0x7fffffff); S.fact(c - s);
      Lin B = freshInt(S, "bytes(" + a.name + ")", T.shareable ? 112 : 128, 0x7fffffff); S.fact(B - c * T.esz); S.fact(c * T.esz + Lin(2 * T.esz - 1) - B);
      if (T.small) { auto d = S.divmod(c, 16); S.fact(d.second - Lin(1)); }
      blk = X.newBlock(S, "heap block of " + a.name, B, T.shareable); S.regs[blk].ext = var == "shared"; if (!T.trivial) { S.regs[blk].hasElems = true; S.regs[blk].elems = s; } }
    a.block = blk; a.size = s; a.dreg = blk; a.doff = Lin(0); a.hasData = true; names["#" + a.name] = s; names["c#" + a.name] = c;
    Region &g = S.regs[a.sreg]; cell(g, 0, 8, Value::P(blk, Lin(0))); cell(g, 8, 12, Value::I(32, s));
    Lin act = var == "uniq" ? c : c - pow2(31); Value av = Value::I(32, act);
    if (T.pack) { auto sg = X.toSegs(av); vector<Seg> o; for (auto &q : X.sub(sg, 8, 24)) Interp::pushSeg(o, q); for (auto &q : X.sub(sg, 0, 8)) Interp::pushSeg(o, q); av = Interp::W(32, o); }
    cell(g, 12, 16, av);
  }
  vector<string> vecVariants() { vector<string> v; v.push_back(T.small ? "small" : "null"); v.push_back("uniq"); if (T.shareable) v.push_back("shared"); return v; }
  vector<vector<string>> variants() {
    vector<vector<string>> out; bool firstVec = true; string fv;
    for (auto &a : SP.args) {
      vector<string> v;
      if (a.kind == 'q') { v = vecVariants(); if (!firstVec) v.push_back("over"); firstVec = false; }
      else if (a.kind == 'V' || a.kind == 'C' || a.kind == 'R' || a.kind == 'r') { v = vecVariants(); if (!firstVec && (a.kind == 'V' || a.kind == 'C') && T.shareable) { v.push_back("twin"); } if (!firstVec && a.kind == 'C') v.push_back("same"); if (firstVec) fv = a.name; firstVec = false; }
      else if (a.kind == 'S') { v = {"ext"}; if (!firstVec) v.push_back("in"); }
      else if (a.kind == 'W' || a.kind == 'w') { v = {"ext", "nil"}; if (!firstVec) v.push_back("in"); }
      else v = {""};
      out.push_back(v); }
    return out;
  }
  bool build(State &S, const vector<string> &var) {
    // vectors first: sources may point into them
    args.resize(SP.args.size());
    for (size_t i = 0; i < SP.args.size(); i++) { args[i].name = SP.args[i].name; args[i].kind = SP.args[i].kind; args[i].variant = var[i]; byName[args[i].name] = (int)i; }
    for (auto &a : args) if (a.kind == 'i') { names[a.name] = freshInt(S, a.name, -2147483648LL, 2147483647LL); }
    ArgInfo *first = nullptr; vector<ArgInfo> extra;
    for (size_t i = 0; i < args.size(); i++) { ArgInfo &a = args[i];
      if (a.kind == 'V' || a.kind == 'C') {
        if (var[i] == "twin") { if (!first || first->variant != "shared") return false; if (first->kind == 'R' || first->kind == 'r') return false; buildVec(S, a, "shared", first); a.variant = "shares block with " + first->name; }
        else if (var[i] == "same") { if (!first || first->kind != 'C') return false; string nm = a.name; char k = a.kind; a = *first; a.name = nm; a.kind = k; names["#" + nm] = a.size; a.variant = "same object as " + first->name; }
        else buildVec(S, a, var[i], nullptr);
        if (!first) first = &args[i];
      } else if (a.kind == 'q' && var[i] == "over") {
        const ArgInfo *v = nullptr; if (!first) return false; if (first->kind == 'R' || first->kind == 'r') { for (auto &e : extra) if (e.name == first->vec) v = &e; } else v = first;
        if (!v) return false; a.L = freshInt(S, a.name + ".L", 0, 0x7fffffff); a.R = freshInt(S, a.name + ".R", 0, 0x7fffffff); S.fact(v->size - a.L - a.R); if (v->size == Lin(0)) a.L = a.R = Lin(0);
        names[a.name + ".L"] = a.L; names[a.name + ".R"] = a.R; names["#" + a.name] = v->size - a.L - a.R;
        Region g; g.name = "range " + a.name; g.lo = Lin(0); g.hi = Lin(16); cell(g, 0, 8, Value::P(v->sreg, Lin(0))); cell(g, 8, 16, Value::I(64, a.L + a.R * ((i64)1 << 32)));
        a.vec = v->name; a.size = v->size - a.L - a.R; a.dreg = v->dreg; a.doff = v->doff + a.L * T.esz; a.block = v->block; a.hasData = true; a.variant = "range over " + v->name; a.sreg = X.addReg(S, g);
      } else if (a.kind == 'R' || a.kind == 'r' || a.kind == 'q') {
        ArgInfo v; v.name = a.name + ".v"; v.kind = 'V'; buildVec(S, v, var[i], nullptr);
        a.L = freshInt(S, a.name + ".L", 0, 0x7fffffff); a.R = freshInt(S, a.name + ".R", 0, 0x7fffffff); S.fact(v.size - a.L - a.R);
        if (v.size == Lin(0)) a.L = a.R = Lin(0);
        names[a.name + ".L"] = a.L; names[a.name + ".R"] = a.R; names["#" + a.name] = v.size - a.L - a.R;
        Region g; g.name = "range " + a.name; g.lo = Lin(0); g.hi = Lin(16); cell(g, 0, 8, Value::P(v.sreg, Lin(0))); cell(g, 8, 16, Value::I(64, a.L + a.R * ((i64)1 << 32)));
        a.sreg = X.addReg(S, g); a.vec = v.name; a.size = v.size - a.L - a.R; a.dreg = v.dreg; a.doff = v.doff + a.L * T.esz; a.block = v.block; a.hasData = true; extra.push_back(v);
        if (!first) first = &args[i];
      } else if (a.kind == 'Z') buildVec(S, a, T.small ? "zero" : "null", nullptr);
    }
    for (auto &v : extra) { byName[v.name] = (int)args.size(); args.push_back(v); }
    for (auto &a : args) { string n = a.name;
      if (a.kind == 'U') { Region g; g.name = "storage " + n; g.lo = Lin(0); g.hi = Lin(16); g.fresh = true; a.sreg = X.addReg(S, g); }
      else if (a.kind == 'O') { Region g; g.name = "output " + n; g.lo = Lin(0); g.hi = Lin(16); g.fresh = true; a.sreg = X.addReg(S, g); }
      else if (a.kind == 'I') { Region g; g.name = "item " + n; g.lo = Lin(0); g.hi = Lin(T.esz); g.hasElems = true; g.elems = Lin(1); a.sreg = a.dreg = X.addReg(S, g); a.doff = Lin(0); a.size = Lin(1); a.hasData = true; names["#" + n] = Lin(1); }
      else if (a.kind == 'K') { Region g; g.name = "element " + n; g.lo = Lin(0); g.hi = Lin(T.esz); g.hasElems = true; g.elems = Lin(1); g.writable = false; a.sreg = a.dreg = X.addReg(S, g); a.doff = Lin(0); a.size = Lin(1); a.hasData = true; names["#" + n] = Lin(1); }
      else if (a.kind == 'L') { Region g; g.name = "slate " + n; g.lo = Lin(0); g.hi = Lin(7 * T.esz); g.hasElems = true; g.elems = Lin(7); a.sreg = a.dreg = X.addReg(S, g); a.doff = Lin(0); a.size = Lin(7); a.hasData = true; names["#" + n] = Lin(7); }
    }
    for (size_t i = 0; i < SP.args.size(); i++) { ArgInfo &a = args[i];
      if (a.kind == 'S' || a.kind == 'M') {
        Lin n = names.at(SP.args[i + 1].name); names["#" + a.name] = n; a.size = n; a.hasData = true;
        if (a.variant == "in") { ArgInfo &v = *firstVec(); if (v.dreg < 0) return false; Lin j = freshInt(S, "at", 0, 0x7fffffff); S.fact(n); S.fact(v.size - j - n); a.dreg = v.dreg; a.doff = v.doff + j * T.esz; a.variant = "points into " + v.name; }
        else { Region g; g.name = "source " + a.name; g.lo = Lin(0); g.hi = n * T.esz; g.writable = a.kind == 'M'; S.fact(n); g.hasElems = true; g.elems = n; a.dreg = X.addReg(S, g); a.doff = Lin(0); a.variant = ""; } }
      if (a.kind == 'W' || a.kind == 'w') {
        Region g; g.name = "view " + a.name; g.lo = Lin(0); g.hi = Lin(16); Lin n; a.hasData = true;
        if (a.variant == "nil") { n = Lin(0); a.dreg = -1; a.doff = Lin(0); cell(g, 0, 8, Value::P(-1, Lin(0))); }
        else if (a.variant == "in") { ArgInfo &v = *firstVec(); if (v.dreg < 0) return false; n = freshInt(S, "#" + a.name, 0, 0x7fffffff); Lin j = freshInt(S, "at", 0, 0x7fffffff); S.fact(v.size - j - n); a.dreg = v.dreg; a.doff = v.doff + j * T.esz; cell(g, 0, 8, Value::P(a.dreg, a.doff)); a.variant = "looks into " + v.name; }
        else { n = freshInt(S, "#" + a.name, 0, 0x7fffffff); Region e; e.name = "elements viewed by " + a.name; e.lo = Lin(0); e.hi = n * T.esz; e.writable = a.kind == 'w'; e.hasElems = true; e.elems = n; a.dreg = X.addReg(S, e); a.doff = Lin(0); cell(g, 0, 8, Value::P(a.dreg, Lin(0))); a.variant = ""; }
        cell(g, 8, 12, Value::I(32, n)); a.size = n; names["#" + a.name] = n; a.sreg = X.addReg(S, g); }
      if (a.kind == 'T') { // C string
        Lin n = freshInt(S, "#" + a.name, 0, 0x7fffffff); Region g; g.name = "string " + a.name; g.lo = Lin(0); g.hi = n + Lin(1); g.writable = false; a.dreg = X.addReg(S, g); a.doff = Lin(0); a.size = n; a.hasData = true; names["#" + a.name] = n;
        S.unk[std::make_tuple(-7 - a.dreg, Lin(0), 0)] = n.t[0].first; }
    }
    if (!pre(S)) return false;
    // function arguments
    S.env.resize(X.nvals);
    for (size_t i = 0; i < SP.args.size(); i++) { ArgInfo &a = args[i]; Value v;
      if (a.kind == 'i') v = Value::I(32, names.at(a.name)); else if (a.kind == 'S' || a.kind == 'M' || a.kind == 'T') v = Value::P(a.dreg, a.doff); else v = Value::P(a.sreg, Lin(0));
      S.env[i] = v; }
    string d; for (auto &a : args) if (!a.variant.empty()) d += (d.empty() ? "" : ", ") + a.name + ": " + a.variant;
    X.caseName = d;
    return true;
  }
  ArgInfo *firstVec() { for (auto &a : args) if (a.kind == 'V' || a.kind == 'C') return &a; for (auto &a : args) if (a.kind == 'R' || a.kind == 'r') return &args[byName.at(a.vec)]; return nullptr; }
  bool pre(State &S) {
    try {
      for (auto &c : splitOn(SP.pre, ',')) { if (c.empty()) continue;
        vector<string> parts; vector<int> ops; string cur; for (size_t i = 0; i < c.size(); i++) { if (c[i] == '<') { parts.push_back(cur); cur.clear(); if (i + 1 < c.size() && c[i + 1] == '=') { ops.push_back(0); i++; } else ops.push_back(1); } else cur += c[i]; }
        parts.push_back(cur);
        for (size_t i = 0; i + 1 < parts.size(); i++) S.fact(expr(parts[i + 1]) - expr(parts[i]) - Lin(ops[i])); }
      if (S.entails(Lin(-1))) return false;
      std::vector<const Lin *> all; for (auto &f : S.facts) all.push_back(&f); if (fm::infeasible(all)) return false;
    } catch (Dead &) { return false; }
    return true;
  }

  // ---- exit
  Value loadField(State &S, int r, i64 off, i64 size, bool ptr) { Value m; m.k = Value::MEM; m.reg = r; m.ver = S.regs[r].log; m.L = Lin(off); m.size = size; Value v = X.loadAs(S, m, ptr); return v; }
  Dec decode(State &S, const string &nm, int r) {
    Dec d; Value pk = loadField(S, r, 12, 4, false); if (pk.k != Value::INT) throw Viol{"rep", nm + " has no well-defined capacity word"};
    auto sg = X.toSegs(pk);
    if (T.small) {
      auto nib = T.pack ? X.sub(sg, 24, 4) : X.sub(sg, 0, 4);
      Value nv = Interp::W(4, nib); bool big = false; for (auto &g : nib) { Lin x = X.segVal(S, g); if (!S.askEq(x, Lin(0))) big = true; if (big) break; }
      if (!big) {
        auto sz = T.pack ? X.sub(sg, 28, 4) : X.sub(sg, 4, 4); Lin s(0); int p = 0; for (auto &g : sz) { s = s + X.segVal(S, g) * ((i64)1 << p); p += g.w; }
        d.small = true; d.reg = r; d.off = Lin(0); d.size = s; if (!S.ask(Lin(T.small) - s)) throw Viol{"rep", nm + " is stored inline with size " + str(s, VN) + ", more than fits"};
        return d; }
    }
    vector<Seg> act; if (T.pack) { for (auto &g : X.sub(sg, 24, 8)) Interp::pushSeg(act, g); for (auto &g : X.sub(sg, 0, 24)) Interp::pushSeg(act, g); } else act = sg;
    Value av = Interp::W(32, act); X.canon(S, av); Lin A = X.asLin(S, av);
    Value sv = loadField(S, r, 8, 4, false); if (sv.k != Value::INT) throw Viol{"rep", nm + " has no well-defined size"}; d.size = X.asLin(S, sv);
    d.small = false;
    if (!T.small && S.askEq(A, Lin(0))) { if (!S.askEq(d.size, Lin(0))) throw Viol{"rep", nm + " has no storage but size " + str(d.size, VN)}; d.reg = -1; d.off = Lin(0); d.small = true; return d; }
    d.sign = !S.ask(A); d.capa = d.sign ? A + pow2(31) : A;
    if (d.sign && !T.shareable) throw Viol{"rep", nm + " of a non-copyable type is marked shared"};
    Value dp = loadField(S, r, 0, 8, true); if (dp.k != Value::PTR || dp.reg < 0 || !S.regs[dp.reg].block) throw Viol{"rep", nm + " does not point to a heap block although its capacity is " + str(A, VN)};
    if (!S.askEq(dp.L, Lin(0))) throw Viol{"rep", nm + " points into the middle of a block"};
    d.reg = dp.reg; d.off = Lin(0); d.block = dp.reg; Region &g = S.regs[dp.reg];
    if (g.gone() ) throw Viol{"uaf", nm + " is left pointing to " + g.name + ", which was released"};
    if (!S.ask(d.size)) throw Viol{"rep", nm + " is left with negative size " + str(d.size, VN)};
    if (!S.ask(d.capa - d.size)) throw Viol{"rep", nm + " is left with size " + str(d.size, VN) + " beyond its capacity " + str(d.capa, VN)};
    if (!S.ask(g.hi - d.capa * T.esz)) throw Viol{"rep", nm + " is left with capacity " + str(d.capa, VN) + " beyond its allocation of " + str(g.hi, VN) + " bytes"};
    if (!S.ask(d.capa * T.esz + Lin(2 * T.esz - 1) - g.hi)) throw Viol{"rep", nm + " records capacity " + str(d.capa, VN) + " for an allocation of " + str(g.hi, VN) + " bytes"};
    if (!S.ask(d.capa - Lin(T.small + 1))) throw Viol{"rep", nm + " is a heap vector with an inline-sized capacity"};
    return d;
  }
  // parts: list of (kind, reg, off, len in elements)
  struct Part { int kind; int reg; Lin off, len; string txt; };
  vector<Part> parts(const string &s, const string &self) {
    vector<Part> out; std::stringstream ss(s); string t;
    while (ss >> t) {
      if (t == "[]") continue;
      Part p; p.txt = t;
      if (t.rfind("zero*", 0) == 0) { p.kind = 1; p.len = expr(t.substr(5)); }
      else if (t.rfind("junk*", 0) == 0) { p.kind = 2; p.len = expr(t.substr(5)); }
      else { string n = t; Lin a(0), b; bool hasb = false; size_t o = t.find('['); if (o != string::npos) { n = t.substr(0, o); string in = t.substr(o + 1, t.size() - o - 2); size_t c = in.find(':'); string l = in.substr(0, c), r = in.substr(c + 1); if (!l.empty()) a = expr(l); if (!r.empty()) { b = expr(r); hasb = true; } }
        auto it = byName.find(n); if (it == byName.end()) { fprintf(stderr, "spec %d: unknown %s\n", SP.line, n.c_str()); ::exit(2); }
        ArgInfo &x = args[it->second]; p.kind = 0; p.reg = x.dreg; p.off = x.doff + a * T.esz; if (!hasb) b = x.size; p.len = b - a; }
      out.push_back(p); }
    return out;
  }
  void checkContent(State &S, const string &nm, const Dec &d, const vector<Part> &ps) {
    Lin tot(0); for (auto &p : ps) tot = tot + p.len;
    if (!S.askEq(d.size, tot)) throw Viol{"content", nm + " ends with size " + str(d.size, VN) + " instead of " + str(tot, VN)};
    Lin cur = d.off;
    for (auto &p : ps) {
      Lin bytes = p.len * T.esz; if (!S.ask(bytes - Lin(1))) continue;
      if (p.kind != 2) {
        if (d.reg < 0) throw Viol{"content", nm + " has no storage"};
        vector<Piece> out; X.resolveVal(S, d.reg, S.regs[d.reg].log, cur, cur + bytes, out); Lin at(0);
        for (auto &q : out) {
          if (p.kind == 1) { if (!(q.k == Piece::ZERO || (q.k == Piece::SCAL && q.v.k == Value::INT && q.v.lin && q.v.L == Lin(0)))) throw Viol{"content", nm + ": elements that should be default-initialised hold other data"}; }
          else {
            if (q.k == Piece::JUNK) throw Viol{"content", nm + ": part " + p.txt + " of the expected content was never written"};
            if (q.k != Piece::INIT) throw Viol{"content", nm + ": part " + p.txt + " of the expected content holds other data"};
            if (q.reg != p.reg) throw Viol{"content", nm + ": part " + p.txt + " of the expected content comes from " + S.regs[q.reg].name};
            if (!S.askEq(q.off, p.off + at)) throw Viol{"content", nm + ": part " + p.txt + " of the expected content is displaced (byte " + str(q.off, VN) + " instead of " + str(p.off + at, VN) + ")"}; }
          at = at + q.len; } }
      cur = cur + bytes; }
  }
  void live(State &S, const string &nm, const Dec &d) {
    if (T.trivial || d.reg < 0) return;
    if (!S.ask(d.size - Lin(1))) return;
    vector<Piece> ps; X.resolve(S, d.reg, S.regs[d.reg].log, d.off, d.off + d.size * T.esz, ps);
    for (auto &p : ps) { if (p.k == Piece::JUNK) throw Viol{"destroy", nm + " is left with elements that were never constructed"}; if (p.k == Piece::DEAD) throw Viol{"destroy", nm + " is left with destroyed elements"};
      if (p.k == Piece::INIT) { Region &g = S.regs[p.reg]; if (g.hasElems && !S.ask(g.elems * T.esz - p.off - p.len)) throw Viol{"destroy", nm + " is left with elements beyond the live part of " + g.name}; } }
  }
  template <class Fn> void soft(State &S, Fn fn) { try { fn(); } catch (Viol &v) { X.report(S, v, nullptr); } }
  void exit(State &S) {
    struct Holder { string nm; Dec d; }; vector<Holder> hs; std::set<int> doneReg;
    std::map<string, string> post; vector<string> outs; std::set<string> excl;
    for (auto &it : splitOn(SP.post, ';')) { if (it.empty()) continue; std::stringstream ss(it); string a, b; ss >> a >> b; if (a == "excl") { excl.insert(b); continue; }
      if (a == "out" || a == "outv" || a == "outr" || a == "out2") { outs.push_back(it); continue; }
      if (b == "=") post[a] = "=" + it.substr(it.find('=') + 1); else post[a] = b; }
    for (auto &a : args) {
      bool vec = a.kind == 'V' || a.kind == 'C' || a.kind == 'U' || a.kind == 'Z'; if (!vec || doneReg.count(a.sreg)) continue;
      string p = post.count(a.name) ? post[a.name] : a.kind == 'U' ? "" : "same"; doneReg.insert(a.sreg);
      if (p == "dead") continue; if (p.empty()) { fprintf(stderr, "spec %d: no result for %s\n", SP.line, a.name.c_str()); ::exit(2); }
      string nm = (a.kind == 'U' || a.kind == 'Z' ? "result " : "") + a.name;
      Dec d = decode(S, nm, a.sreg); hs.push_back({nm, d});
      if (p == "same") { if (a.dreg >= 0 && S.regs[a.dreg].gone()) { } vector<Part> pp; if (a.kind != 'Z' && a.variant != "null" && a.variant != "zero") pp.push_back({0, a.dreg, a.doff, a.size, a.name}); soft(S, [&] { checkContent(S, nm, d, pp); }); }
      else if (p[0] == '=') soft(S, [&] { checkContent(S, nm, d, parts(p.substr(1), a.name)); });
      soft(S, [&] { live(S, nm, d); });
      if (excl.count(a.name) && d.block >= 0 && !S.regs[d.block].exclusive()) soft(S, [&] { throw Viol{"cow", nm + " is handed out for writing while its block may be shared"}; });
    }
    for (auto &a : args) if ((a.kind == 'w' || a.kind == 'L') && post.count(a.name) && post[a.name][0] == '=') soft(S, [&] { Dec d; d.small = true; d.reg = a.dreg; d.off = a.doff; d.size = a.size; checkContent(S, "view " + a.name, d, parts(post[a.name].substr(1), a.name)); });
    for (auto &o : outs) soft(S, [&] { checkOut(S, o); });
    soft(S, [&] {
    // every block is owned by exactly as many vectors as its count says
    std::map<int, int> own; for (auto &h : hs) if (h.d.block >= 0) { own[h.d.block]++; Region &g = S.regs[h.d.block]; if (!h.d.sign && (g.n != 1 || g.ext)) throw Viol{"rc", h.nm + " is marked as the only owner of " + g.name + ", which may be shared"}; 
      if (!T.trivial && (g.n >= 2 || g.ext) && g.hasElems && !S.askEq(h.d.size, g.elems)) throw Viol{"destroy", h.nm + " keeps a share of " + g.name + " but with a different number of elements"}; }
    for (size_t i = 0; i < S.regs.size(); i++) { Region &g = S.regs[i]; if (!g.block) continue;
      if (g.last && !g.freed) throw Viol{"leak", g.name + " lost its last owner but was not deallocated"};
      if (g.freed || g.n == 0) { if (own.count(i)) throw Viol{"uaf", g.name + " was released but is still in use"}; continue; }
      int o = own.count(i) ? own[i] : 0;
      if (o < g.n) throw Viol{"leak", g.name + " is not released (its reference count stays too high)"};
      if (o > g.n) throw Viol{"rc", g.name + " is used by more vectors than its reference count records"}; } });
    if (!T.trivial) soft(S, [&] { conserve(S, hs); });
  }
  template <class H> void conserve(State &S, vector<H> &hs) {
    struct Iv { Lin lo, hi; string who; }; std::map<std::pair<int, int>, vector<Iv>> where;     // (0,reg) or (1,event)
    auto add = [&](const Piece &p, const string &who) { if (p.k == Piece::INIT) where[{0, p.reg}].push_back({p.off, p.off + p.len, who}); else if (p.k == Piece::EV) where[{1, p.ev}].push_back({p.off, p.off + p.len, who}); };
    std::set<int> seen;
    for (auto &h : hs) if (h.d.reg >= 0) { if (!seen.insert(h.d.reg).second) continue; vector<Piece> ps; X.resolve(S, h.d.reg, S.regs[h.d.reg].log, h.d.off, h.d.off + h.d.size * T.esz, ps); for (auto &p : ps) add(p, "kept in " + h.nm); }
    for (size_t i = 0; i < S.regs.size(); i++) { Region &g = S.regs[i]; if (!g.hasElems) continue;
      if (g.block && g.gone() && !g.freed) { where[{0, (int)i}].push_back({Lin(0), g.elems * T.esz, "kept by the other owners"}); continue; }
      if (g.block) continue;
      if (seen.count(i)) continue; vector<Piece> ps; X.resolve(S, i, g.log, Lin(0), g.elems * T.esz, ps); for (auto &p : ps) add(p, "kept in " + g.name); }
    for (auto &p : S.destroyed) add(p, "destroyed");
    auto tile = [&](vector<Iv> v, Lin end, const string &what) {
      Lin cur(0);
      for (;;) {
        if (S.sureEq(cur, end)) { for (auto &p : v) if (S.ask(p.hi - p.lo - Lin(1))) throw Viol{"destroy", what + " end up owned twice (" + p.who + ")"}; return; }
        bool found = false;
        for (size_t i = 0; i < v.size(); i++) if (S.sureEq(v[i].lo, cur)) { if (!S.ask(v[i].hi - v[i].lo - Lin(1))) { v.erase(v.begin() + i); found = true; break; } if (!S.ask(end - v[i].hi)) throw Viol{"destroy", what + ": more elements owned than exist (" + v[i].who + ")"}; cur = v[i].hi; v.erase(v.begin() + i); found = true; break; }
        if (found) continue;
        for (size_t i = 0; i < v.size(); i++) { if (!S.ask(v[i].hi - v[i].lo - Lin(1))) { v.erase(v.begin() + i); found = true; break; } if (S.askEq(v[i].lo, cur)) { found = true; break; } }
        if (found) continue;
        if (S.askEq(cur, end)) continue;
        for (auto &p : v) if (S.ask(cur - p.lo - Lin(1))) throw Viol{"destroy", what + " are owned or destroyed twice (" + p.who + ", bytes " + str(p.lo, VN) + " to " + str(p.hi, VN) + ")"};
        throw Viol{"leak", what + ": element bytes from " + str(cur, VN) + " on are neither kept nor destroyed"}; } };
    for (size_t i = 0; i < S.regs.size(); i++) if (S.regs[i].hasElems) tile(where[{0, (int)i}], S.regs[i].elems * T.esz, "the elements of " + S.regs[i].name);
    for (size_t e = 0; e < S.evs.size(); e++) tile(where[{1, (int)e}], S.evs[e].len, "copied elements");
  }
  // data pointer and size of a named argument in the final state
  void finalData(State &S, const string &n, int &r, Lin &off, Lin &size) {
    ArgInfo &a = args[byName.at(n)];
    if (a.kind == 'R' || a.kind == 'r' || a.kind == 'q') { ArgInfo &v = args[byName.at(a.vec)]; Dec d = decode(S, v.name, v.sreg); r = d.reg; off = d.off + a.L * T.esz; size = d.size - a.L - a.R; }
    else if (a.kind == 'V' || a.kind == 'C') { Dec d = decode(S, a.name, a.sreg); r = d.reg; off = d.off; size = d.size; }
    else { r = a.dreg; off = a.doff; size = a.size; }
  }
  void checkOut(State &S, const string &it) {
    std::stringstream ss(it); string o, k; ss >> o >> k; int r = args[byName.at(o)].sreg; string rest; std::getline(ss, rest); rest = trim(rest);
    if (k == "int") { Value v = loadField(S, r, 0, 4, false); if (v.k != Value::INT || !S.askEq(X.asLin(S, v), expr(rest))) throw Viol{"index", "reports " + (v.k == Value::INT ? str(X.asLin(S, v), VN) : string("an unset value")) + " instead of " + rest}; return; }
    if (k == "nz") { Value v = loadField(S, r, 0, 1, false); Lin e = expr(rest); bool z = S.askEq(e, Lin(0)); if (v.k != Value::INT || S.askEq(X.asLin(S, v), Lin(0)) != z) throw Viol{"index", "truth value disagrees with the size"}; return; }
    if (k == "trap") { Value v = loadField(S, r, 0, 8, true); if (v.k == Value::PTR && v.reg >= 0) throw Viol{"index", "an out-of-range index yields a usable address in " + S.regs[v.reg].name + " (offset " + str(v.L, VN) + ")"}; return; }
    if (k == "ptr") { std::stringstream q(rest); string n, e; q >> n; std::getline(q, e); Value v = loadField(S, r, 0, 8, true); int dr; Lin doff, ds; finalData(S, n, dr, doff, ds);
      Lin want = doff + expr(e) * T.esz; if (v.k != Value::PTR) throw Viol{"index", "yields no address"};
      if (dr < 0 && v.reg < 0) return;
      if (v.reg != dr) throw Viol{"index", "yields an address in " + (v.reg < 0 ? string("no object") : S.regs[v.reg].name) + " instead of " + (dr < 0 ? string("none") : S.regs[dr].name)};
      if (!S.askEq(v.L, want)) throw Viol{"index", "yields the address at byte " + str(v.L, VN) + " instead of " + str(want, VN)}; return; }
    if (k == "view" || k == "viewin") { std::stringstream q(rest); string n, a, b; q >> n >> a >> b; Value p = loadField(S, r, 0, 8, true), z = loadField(S, r, 8, 4, false); int dr; Lin doff, ds; finalData(S, n, dr, doff, ds);
      if (p.k != Value::PTR || z.k != Value::INT) throw Viol{"index", "yields no view"}; Lin sz = X.asLin(S, z);
      if (k == "view") { Lin A = expr(a), B = expr(b); if (!S.askEq(sz, B - A)) throw Viol{"index", "yields a view of size " + str(sz, VN) + " instead of " + str(B - A, VN)};
        if (dr < 0 && p.reg < 0) return; if (p.reg != dr || !S.askEq(p.L, doff + A * T.esz)) throw Viol{"index", "yields a view starting at the wrong element"}; return; }
      if (!S.ask(sz)) throw Viol{"index", "yields a view of negative size " + str(sz, VN)};
      if (!S.ask(sz - Lin(1))) return;
      if (p.reg != dr || dr < 0) throw Viol{"index", "yields a view of something else"};
      if (!S.ask(p.L - doff)) throw Viol{"index", "yields a view that starts before the elements of " + n};
      if (!S.ask(doff + ds * T.esz - p.L - sz * T.esz)) throw Viol{"index", "yields a view that ends beyond the elements of " + n}; 
      if (!(S.divmod(p.L - doff, T.esz).second == Lin(0)) && !S.askEq(S.divmod(p.L - doff, T.esz).second, Lin(0))) throw Viol{"index", "yields a misaligned view"}; return; }
    if (k == "range" || k == "rangein") { std::stringstream q(rest); string n, a, b; q >> n >> a >> b; ArgInfo &x = args[byName.at(n)]; Value p = loadField(S, r, 0, 8, true), z = loadField(S, r, 8, 8, false);
      if (p.k != Value::PTR || z.k != Value::INT) throw Viol{"index", "yields no range"};
      ArgInfo &v = x.vec.empty() ? x : args[byName.at(x.vec)]; if (p.reg != v.sreg || !S.askEq(p.L, Lin(0))) throw Viol{"index", "yields a range of another vector"};
      Lin m = X.asLin(S, z); auto d = S.divmod(m, (i64)1 << 32); Lin L = d.second, Rr = d.first;
      if (k == "range") { Lin A = expr(a), B = expr(b); if (!S.askEq(L, x.L + A)) throw Viol{"index", "yields a range starting at " + str(L, VN) + " instead of " + str(x.L + A, VN)}; if (!S.askEq(v.size - L - Rr, B - A)) throw Viol{"index", "yields a range of size " + str(v.size - L - Rr, VN) + " instead of " + str(B - A, VN)}; return; }
      if (!S.ask(L) || !S.ask(Rr) || !S.ask(v.size - L - Rr)) throw Viol{"index", "yields a range outside its vector"};
      if (!S.ask(L - x.L) || !S.ask(Rr - x.R)) throw Viol{"index", "yields a range wider than the one it was taken from"}; return; }
    fprintf(stderr, "spec %d: bad output %s\n", SP.line, it.c_str()); ::exit(2);
  }
};

static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o; }

struct Job { const Function *F; const TypeInfo *T; const Spec *sp; string nm, ty, op; long w; };
static void run_job(const Job &j, FILE *out) {
  const Function &F = *j.F; const Spec &sp = *j.sp;
  Result R; auto t0 = std::chrono::steady_clock::now();
  Interp X(F, *j.T, R, sp); Runner proto(X); auto vs = proto.variants(); vector<size_t> at(vs.size(), 0);
  while (true) {
    vector<string> var; for (size_t i = 0; i < vs.size(); i++) var.push_back(vs[i][at[i]]);
    VN.clear(); State S; Runner rn(X); X.exitCheck = [&](State &s) { rn.exit(s); };
    bool ok = false; try { ok = rn.build(S, var); } catch (Dead &) {}
    if (ok) { long before = R.states; R.cases++; X.run(std::move(S)); if (VERBOSE) fprintf(stderr, "%s [%s]: %ld states\n", j.nm.c_str(), X.caseName.c_str(), R.states - before); }
    size_t k = 0; while (k < vs.size() && ++at[k] == vs[k].size()) at[k++] = 0; if (k == vs.size()) break; }
  double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  string o; char buf[400]; snprintf(buf, sizeof buf, "\",\"line\":%d,\"cases\":%ld,\"paths\":%ld,\"states\":%ld,\"sec\":%.2f,\"undecided\":{", sp.line, R.cases, R.paths, R.states, sec);
  o = "{\"fn\":\"" + jesc(j.nm) + "\",\"type\":\"" + j.ty + "\",\"op\":\"" + j.op + buf;
  bool f = true; for (auto &x : R.undecided) { o += string(f ? "" : ",") + "\"" + jesc(x.first) + "\":" + std::to_string(x.second); f = false; } o += "},\"viol\":{";
  f = true; for (auto &x : R.viol) { o += string(f ? "" : ",") + "\"" + jesc(x.first) + "\":\"" + jesc(x.second) + "\""; f = false; } o += "}}\n"; fputs(o.c_str(), out); fflush(out);
}
static int run_main(int argc, char **argv) {
  vector<string> pos; int nj = 1; string only, outf; for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "-j") nj = atoi(argv[++i]); else if (a == "-o") outf = argv[++i]; else if (a == "-only") only = argv[++i]; else if (a == "-v") VERBOSE = true; else if (a == "-maxstates") MAXSTATES = atol(argv[++i]); else if (a == "-maxsec") MAXSEC = atof(argv[++i]); else if (a == "-deadline") DEADLINE = atof(argv[++i]); else pos.push_back(a); }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(pos[0], E, C); if (!M) { E.print("vecabs", errs()); return 2; }
  auto specs = loadSpecs(pos[1].c_str()); std::regex rx(only); vector<Job> jobs; std::set<int> usedSpec;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue; string d = demangle(F.getName().str()); size_t p = d.find("op__"); if (p == string::npos || F.getName().str().find(".inl") == string::npos) continue;
    string nm = d.substr(p + 4, d.find('(', p) - p - 4); size_t u = nm.find("__"); string ty = nm.substr(0, u), op = nm.substr(u + 2);
    const TypeInfo *T = nullptr; for (auto &t : TYPES) if (t.n == ty) T = &t; if (!T) continue;
    for (auto &sp : specs) {
      if (sp.op != op) continue; if (!sp.types.empty()) { bool ok = false; for (auto &x : splitOn(sp.types, '/')) if (x == ty) ok = true; if (!ok) continue; }
      usedSpec.insert(sp.line);
      if (!only.empty() && !std::regex_search(nm, rx)) continue;
      if (F.arg_size() != sp.args.size()) { fprintf(stderr, "spec %d: %s takes %zu arguments\n", sp.line, nm.c_str(), F.arg_size()); return 2; }
      long w = ty == "char" ? 8 : T->small ? 3 : 1; int vecs = 0; for (auto &a : sp.args) { if (strchr("VCRrqWSw", a.kind)) { w *= 3; vecs++; } if (a.kind == 'i') w *= 2; if (a.kind == 'O') w /= 4; }
      jobs.push_back({&F, T, &sp, nm, ty, op, w}); } }
  for (auto &sp : specs) if (!usedSpec.count(sp.line)) { fprintf(stderr, "spec %d: no function for %s\n", sp.line, sp.op.c_str()); return 2; }
  std::stable_sort(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) { return a.w > b.w; });
  if (nj <= 1) { FILE *o = outf.empty() ? stdout : fopen(outf.c_str(), "w"); for (auto &j : jobs) run_job(j, o); return 0; }
  auto *next = (std::atomic<long> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (next) std::atomic<long>(0);
  vector<pid_t> kids;
  for (int i = 0; i < nj; i++) { pid_t p = fork(); if (p < 0) return 2;
    if (!p) { FILE *o = fopen((outf + "." + std::to_string(i)).c_str(), "w"); if (!o) _exit(3); for (;;) { long k = next->fetch_add(1); if (k >= (long)jobs.size()) break; run_job(jobs[k], o); } fclose(o); _exit(0); }
    kids.push_back(p); }
  bool bad = false; for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (st) bad = true; }
  std::ofstream all(outf); for (int i = 0; i < nj; i++) { string f = outf + "." + std::to_string(i); std::ifstream in(f); string l; while (std::getline(in, l)) all << l << "\n"; unlink(f.c_str()); }
  fprintf(stderr, "%zu jobs\n", jobs.size());
  return bad ? 3 : 0;
}
