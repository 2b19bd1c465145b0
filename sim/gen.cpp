// Seed -> Plan.  Everything random about a simulated run is decided here (and,
// for interleavings, by the seeded scheduler in rt.cpp).
#include "plan.hpp"
#include <algorithm>
#include <cmath>

using namespace rt;
const char* twin_names[6] = {"none", "memory", "clock", "serial", "locale", "surroundings"};
typedef int64_t i64;
enum GK { G_NONE = -1, G_Q, G_GRID, G_USPEC, G_PSPEC, G_RGP, G_BATCH, G_PROD, G_TRAITS, G_FQ };
struct RP { int rq; i64 n; double R, al; };
struct AP { int aq; i64 na; };
struct SK { int k = G_NONE; int ty = -1; RP rp{0, 0, 1, -1}; AP ap{2, 6}; i64 last = -1; bool fin = false, typed = false; i64 np = 0; int mode = 0; };

static const std::vector<i64> ANG_S[4] = {{72, 132, 192}, {14, 26, 50, 110, 194}, {6, 14, 26, 38, 50, 74, 86, 110, 146, 170, 194}, {3, 6, 8, 14, 18, 26, 32, 42, 50, 62, 72, 86}};
static const std::vector<i64> ANG_L[4] = {{312, 372, 432, 492, 15012}, {302, 434, 590, 770, 974, 3470}, {230, 266, 302, 350, 434, 590, 770, 974, 1202, 5810}, {98, 114, 128, 146, 163, 201, 7939}};
static const std::vector<i64> ANG_BAD[4] = {{0, 1, 71, 73, 194, 1000}, {0, 1, 6, 13, 38, 195}, {0, 1, 5, 7, 13, 15, 27, 100, 5809, 5811}, {0, 1, 2, 4, 7, 15, 100, 8000}};

struct Gen {
  Rng r; Plan p; int task = -1;
  SK own[9][12]; // [0] sequential world, [1+t] tasks
  std::vector<RP> rads; std::vector<AP> angs; std::vector<std::string> said;
  i64 maxpts = 2500;
  bool conc = false;
  double p_fault = 0, p_sweep = 0, p_rep = 0;
  int nslots = 8;

  explicit Gen(uint64_t seed, int prop) : r(seed * 1000003 + (uint64_t)prop * 7919 + 17) {}
  SK* w() { return own[task < 0 || task >= 8 ? 0 : task + 1]; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[r.below(v.size())]; }
  bool ch(double x) { return r.chance(x); }

  double some_R() {
    switch (r.below(6)) { case 0: return 1.0; case 1: return 0.5 + r.unit(); case 2: return 0.1 * (double)(1 + r.below(60)); case 3: return std::exp((r.unit() - 0.5) * 6); case 4: return 1.6; default: return (double)(1 + r.below(4)); }
  }
  void pools(int nr, int na, i64 nmax, bool large = false) {
    static const std::vector<i64> N = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 25, 32, 33, 40, 50, 64, 75, 99};
    std::vector<i64> ns; for (i64 x : N) if (x <= nmax) ns.push_back(x);
    RP b{(int)r.below(4), pick(ns), some_R(), ch(0.5) ? 0.6 : r.unit()};
    if (ch(0.5)) b.al = -1;
    rads.push_back(b);
    while ((int)rads.size() < nr) { // near collisions with an existing one
      RP q = pick(rads);
      switch (r.below(8)) {
        case 0: q.R = some_R(); break;
        case 1: q.R = std::nextafter(q.R, 1e9); break;
        case 2: q.n = pick(ns); break;
        case 3: q.rq = (q.rq + 1 + (int)r.below(3)) & 3; break;
        case 4: q.n = std::max<i64>(1, std::min<i64>(nmax, q.n + (ch(0.5) ? 1 : -1))); break;
        case 5: q.rq = 3; q.al = q.al < 0 ? 0.3 + r.unit() : (ch(0.5) ? -1 : q.al * 1.25); break;
        case 6: q.R = q.R * (1 + 1e-7); break;
        default: q = RP{(int)r.below(4), pick(ns), some_R(), ch(0.5) ? -1 : r.unit()};
      }
      rads.push_back(q);
    }
    if (ch(0.06)) { // units far from atomic ones: weights and coordinates that underflow or overflow
      static const double X[] = {1e-100, 1e-102, 1e-104, 1e-106, 1e-107, 1e-108, 1e-150, 1e-90, 1e-50, 1e50, 1e90, 1e100, 1e-300, 5e-324};
      for (auto& q : rads) if (ch(0.6)) q.R = X[r.below(ch(0.9) ? 12 : 14)];
    }
    int aq = (int)r.below(4);
    while ((int)angs.size() < na) {
      AP a{aq, 0};
      a.na = large && ch(0.25) ? pick(ANG_L[a.aq]) : pick(ANG_S[a.aq]);
      angs.push_back(a);
      if (ch(0.6)) aq = (int)r.below(4);
      if (ch(0.3)) { // the same size from another family
        for (int k = 0; k < 4; k++) if (k != a.aq && std::find(ANG_S[k].begin(), ANG_S[k].end(), a.na) != ANG_S[k].end()) { angs.push_back(AP{k, a.na}); break; } }
    }
  }
  RP rad() { return ch(0.93) ? pick(rads) : RP{(int)r.below(4), 1 + (i64)r.below(20), some_R(), ch(0.5) ? -1 : r.unit()}; }
  AP ang() { return ch(0.9) ? pick(angs) : AP{2, 6}; }
  // a (radial,angular) pair of bounded size
  void pair(RP& a, AP& b) { for (int i = 0; i < 20; i++) { a = rad(); b = ang(); if (a.n * b.na <= maxpts) return; } b = AP{(int)r.below(4), 0}; b.na = ANG_S[b.aq][0]; while (a.n * b.na > maxpts && a.n > 1) a.n /= 2; }
  static void setr(Op& o, const RP& a) { o.a[0] = a.rq; o.a[1] = a.n; o.d[0] = a.R; o.d[1] = a.al; }
  static void seta(Op& o, const AP& a) { o.a[2] = a.aq; o.a[3] = a.na; }

  int slot(int kind, int ty = -1) { // an existing slot of that kind, or -1
    int c[12], n = 0; for (int i = 0; i < 12; i++) if (w()[i].k == kind && (ty < 0 || w()[i].ty == ty)) c[n++] = i;
    return n ? c[r.below(n)] : -1;
  }
  int rslot(int kind, int ty = -1) { // for reading: tasks may also read the shared world
    int s = slot(kind, ty);
    if (task >= 0 && task < 8 && (s < 0 || ch(0.5))) { int c[12], n = 0; for (int i = 0; i < 12; i++) if (own[0][i].k == kind && (ty < 0 || own[0][i].ty == ty)) c[n++] = i; if (n) return 100 + c[r.below(n)]; }
    return s;
  }
  SK& info(int s) { return s >= 100 ? own[0][s - 100] : w()[s]; }
  int dst(int avoid = -1, int avoid2 = -1) { for (int i = 0; i < 40; i++) { int d = (int)r.below(nslots); if (d != avoid && d != avoid2 && (w()[d].k == G_NONE || i > 12)) return d; } return (avoid + 1) % nslots; }
  void deco(Op& o) { // faults on this op
    if (p_sweep > 0 && ch(p_sweep)) { o.sweep = ch(0.5) ? 1 : 1 + (int)r.below(4); o.f.kind = ch(0.25) ? F_FROM : F_NTH; }
    else if (p_fault > 0 && ch(p_fault)) {
      switch (r.below(5)) {
        case 4: o.f.kind = F_BUDGET; o.f.a = (uint64_t)std::exp(std::log(16.0) + r.unit() * std::log(8000.0)); break;
        case 0: o.f.kind = F_NTH; o.f.a = 1 + r.below(ch(0.7) ? 12 : 60); break;
        case 1: o.f.kind = F_FROM; o.f.a = 1 + r.below(ch(0.7) ? 12 : 60); break;
        case 2: o.f.kind = F_SIZE; o.f.a = (uint64_t)std::exp(std::log(16.0) + r.unit() * std::log(4000.0)); break;
        default: o.f.kind = F_PROB; o.f.a = 1000000 / (2 + r.below(40)); o.f.seed = r.next() >> 8;
      }
    } else if (p_rep > 0 && ch(p_rep)) o.rep = 1;
  }
  Op& add(Op o, bool faulty = true) { o.task = task; if (faulty) deco(o); p.ops.push_back(o); return p.ops.back(); }
  bool certain(const Op& o) { return o.f.kind == F_NONE || o.sweep; }
  void set(int d, const SK& k) { if (certain(p.ops.back())) w()[d] = k; }

  // ------------------------------------------------------------- requests
  void q_rad() { Op o; o.code = O_RAD; RP a = rad(); setr(o, a); o.dst = dst(); add(o); SK k; k.k = G_FQ; set(o.dst, k); }
  void q_ang() { Op o; o.code = O_ANG; seta(o, ang()); o.dst = dst(); add(o); SK k; k.k = G_FQ; set(o.dst, k); }
  void q_prim(int kind = -1, int d = -1) {
    Op o; o.code = O_PRIM; if (kind < 0) kind = (int)r.below(15); o.a[0] = kind; RP a = rad();
    static const i64 lo[15] = {1, 2, 1, 1, 1, 1, 2, 1, 1, 1, 1, 0, 0, 0, 0};
    o.a[1] = std::max(a.n, lo[kind]); o.d[0] = a.R; o.d[1] = a.al < 0 ? 0.6 : a.al;
    if (kind == 6) { o.d[0] = -a.R; o.d[1] = a.R + 1; }
    AP b = ang(); if (kind >= 11) { b.aq = kind - 11; if (std::find(ANG_S[b.aq].begin(), ANG_S[b.aq].end(), b.na) == ANG_S[b.aq].end()) b.na = pick(ANG_S[b.aq]); o.a[1] = b.na; }
    o.dst = d >= 0 ? d : dst(); add(o);
    SK k; k.k = G_Q; k.ty = kind; k.rp = a; k.rp.n = o.a[1]; k.ap = b; set(o.dst, k);
  }
  void q_ugrid() { Op o; o.code = O_UGRID; RP a; AP b; pair(a, b); setr(o, a); seta(o, b); o.dst = dst(); add(o); SK k; k.k = G_GRID; k.rp = a; k.ap = b; k.np = a.n * b.na; set(o.dst, k); }
  void regions(Op& o, const RP& a, const AP& b) {
    i64 st = 0; int k = 1 + (int)r.below(4); std::vector<i64> cuts;
    for (int i = 1; i < k; i++) if (a.n > 1) cuts.push_back(1 + (i64)r.below(a.n - 1));
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); cuts.push_back(a.n);
    for (i64 e : cuts) { i64 s = ch(0.4) ? b.na : pick(ANG_S[b.aq]); o.v.insert(o.v.end(), {st, e, b.aq, s}); st = e; }
  }
  void q_pgrid() { Op o; o.code = O_PGRID; RP a; AP b; pair(a, b); a.n = std::min<i64>(a.n, 1 + maxpts / 200); setr(o, a); regions(o, a, b); o.dst = dst(); add(o); SK k; k.k = G_GRID; k.rp = a; k.ap = b; k.np = a.n * b.na; set(o.dst, k); }
  void q_uspec() { Op o; o.code = O_USPEC; RP a; AP b; pair(a, b); setr(o, a); seta(o, b); o.dst = dst(); add(o); SK k; k.k = G_USPEC; k.rp = a; k.ap = b; set(o.dst, k); }
  void q_pspec(int sc = -1) { int s = rslot(G_USPEC); if (s < 0) { q_uspec(); s = slot(G_USPEC); if (s < 0) return; } Op o; o.code = O_PSPEC; o.a[0] = sc >= 0 ? sc : (i64)r.below(5); o.src = s; o.dst = dst(s); add(o); SK k; k.k = G_PSPEC; k.rp = info(s).rp; k.ap = info(s).ap; set(o.dst, k); }
  void q_pspecv() { Op o; o.code = O_PSPECV; RP a; AP b; pair(a, b); a.n = std::min<i64>(a.n, 1 + maxpts / 200); setr(o, a); regions(o, a, b); o.a[4] = r.below(2); o.dst = dst(); add(o); SK k; k.k = G_PSPEC; k.rp = a; k.ap = b; set(o.dst, k); }
  void q_gen() { int s = ch(0.5) ? rslot(G_USPEC) : rslot(G_PSPEC); if (s < 0) s = rslot(G_PSPEC); if (s < 0) s = rslot(G_USPEC); if (s < 0) { q_uspec(); s = slot(G_USPEC); if (s < 0) return; } Op o; o.code = O_GEN; o.src = s; o.dst = dst(s); add(o); SK k; k.k = G_GRID; k.rp = info(s).rp; k.ap = info(s).ap; k.np = k.rp.n * k.ap.na; set(o.dst, k); }
  double coord() { switch (r.below(9)) { case 0: return 0; case 1: return (double)r.range(-3, 3); case 2: return 1e3 * (r.unit() - 0.5); case 3: return 1e8 * (r.unit() - 0.5); case 4: return r.unit() * 1e-8; case 5: return -(double)r.below(100) / 7; default: return 10 * (r.unit() - 0.5); } }
  double lastc[3] = {0, 0, 0};
  void cen(Op& o) {
    for (int k = 0; k < 3; k++) o.d[k] = coord();
    if (ch(0.15)) o.d[0] = o.d[1] = o.d[2] = 0;
    else if (ch(0.06)) for (int k = 0; k < 3; k++) o.d[k] = (ch(0.5) ? 1 : -1) * std::pow(10.0, -1 - 322 * r.unit()) * (ch(0.8) ? 1 : 0);
    else if (ch(0.08)) for (int k = 0; k < 3; k++) { o.d[k] = lastc[k]; switch (r.below(5)) { case 0: o.d[k] = std::nextafter(o.d[k], 1e300); break; case 1: o.d[k] = std::nextafter(o.d[k], -1e300); break; case 2: o.d[k] *= 1 + 1e-12 * (r.unit() - 0.5); break; case 3: o.d[k] = -o.d[k]; break; default: break; } }
    for (int k = 0; k < 3; k++) lastc[k] = o.d[k];
  }
  static const int (&combos())[4][2] { static const int c[4][2] = {{7, 13}, {8, 12}, {10, 11}, {9, 14}}; return c; }
  void q_tgrid() {
    int c = (int)r.below(4); int s1 = rslot(G_Q, combos()[c][0]), s2 = rslot(G_Q, combos()[c][1]);
    if (s1 < 0 || s2 < 0) { for (int i = 0; i < 4; i++) { int x = rslot(G_Q, combos()[i][0]), y = rslot(G_Q, combos()[i][1]); if (x >= 0 && y >= 0) { s1 = x; s2 = y; } } }
    if (s1 < 0) { int d = dst(s2); q_prim(combos()[c][0], d); s1 = d; if (w()[d].k != G_Q) return; }
    if (s2 < 0) { int d = dst(s1); q_prim(combos()[c][1], d); s2 = d; if (w()[d].k != G_Q) return; }
    if (info(s1).rp.n * info(s2).ap.na > 4 * maxpts) return;
    Op o; o.code = O_TGRID; o.src = s1; o.src2 = s2; cen(o); o.a[0] = ch(0.55) ? 0 : (i64)r.below(4); o.dst = dst(s1, s2); add(o);
    SK k; k.k = G_GRID; k.typed = true; k.rp = info(s1).rp; k.ap = info(s2).ap; k.np = k.rp.n * k.ap.na; set(o.dst, k);
  }
  void q_rgp(bool complete = true) {
    Op o; int ty = (int)r.below(3); static const int aqk[] = {2, 3, 1}; RP a = rad(); a.n = std::min<i64>(a.n, 1 + maxpts / 150); o.a[4] = ty; setr(o, a); o.dst = dst();
    if (a.n >= 4 && ch(0.4)) { o.code = O_RGPVAR; i64 i1 = 1 + (i64)r.below(a.n - 2), i2 = i1 + 1 + (i64)r.below(a.n - i1 - 1); if (i2 >= a.n) i2 = a.n - 1; if (i2 <= i1) { i1 = 1; i2 = 2; } o.v = {0, i1, i2, pick(ANG_S[aqk[ty]]), pick(ANG_S[aqk[ty]]), pick(ANG_S[aqk[ty]])}; add(o); SK k; k.k = G_RGP; k.ty = ty; k.rp = a; k.fin = true; k.last = i2; set(o.dst, k); return; }
    o.code = O_RGPNEW; add(o); SK k; k.k = G_RGP; k.ty = ty; k.rp = a; k.last = -1; set(o.dst, k);
    if (w()[o.dst].k != G_RGP) return;
    int m = (int)r.below(4); q_rgpadd(o.dst);
    for (int i = 0; i < m; i++) q_rgpadd(o.dst);
    if (complete) q_rgpfin(o.dst);
  }
  void q_rgpadd(int d) {
    SK& k = w()[d]; if (k.k != G_RGP || k.fin) return; static const int aqk[] = {2, 3, 1};
    i64 idx = k.last < 0 ? 0 : k.last + 1 + (i64)r.below(std::max<i64>(1, k.rp.n / 2)); if (idx >= k.rp.n) return;
    Op o; o.code = O_RGPADD; o.dst = d; o.a[1] = idx; o.a[3] = pick(ANG_S[aqk[k.ty]]); o.a[4] = k.ty; add(o); if (certain(p.ops.back())) k.last = idx;
  }
  void q_rgpfin(int d) { Op o; o.code = O_RGPFIN; o.dst = d; add(o); if (certain(p.ops.back())) w()[d].fin = true; }
  void q_tpgrid() { int s = rslot(G_RGP); if (s < 0 || !info(s).fin) { q_rgp(); s = slot(G_RGP); if (s < 0 || !info(s).fin) return; } Op o; o.code = O_TPGRID; o.src = s; cen(o); o.a[3] = ch(0.6) ? 0 : (i64)r.below(3); o.dst = dst(s); add(o); SK k; k.k = G_GRID; k.typed = true; k.rp = info(s).rp; k.ap = AP{2, 50}; k.np = k.rp.n * 50; set(o.dst, k); }
  void q_prod() { int s1 = rslot(G_Q, 7), s2 = rslot(G_Q, 13); if (s1 < 0) { int d = dst(s2); q_prim(7, d); s1 = d; if (w()[d].k != G_Q) return; } if (s2 < 0) { int d = dst(s1); q_prim(13, d); s2 = d; if (w()[d].k != G_Q) return; } Op o; o.code = O_PROD; o.src = s1; o.src2 = s2; o.dst = dst(s1, s2); add(o); SK k; k.k = G_PROD; set(o.dst, k); }
  void q_sub() { int s = rslot(G_Q, 7); if (s < 0) { q_prim(7); s = slot(G_Q, 7); if (s < 0) return; } Op o; o.code = O_SUB; o.src = s; o.a[0] = r.below(50); o.a[1] = r.below(50); o.dst = dst(s); add(o); SK k; k.k = G_Q; k.ty = 99; set(o.dst, k); }
  void q_traits() { Op o; o.code = O_TRAITS; RP a = rad(); setr(o, a); o.dst = dst(); add(o); SK k; k.k = G_TRAITS; set(o.dst, k); }
  i64 some_max(i64 np) {
    if (ch(0.02)) { static const i64 H[] = {65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 1ll << 53, 1ll << 62, 9223372036854775807ll, -1, -2}; return H[r.below(12)]; } // "no limit"
    switch (r.below(8)) { case 0: return 1; case 1: return 2; case 2: return np > 0 ? np : 1; case 3: return np + 1; case 4: return std::max<i64>(1, np - 1); case 5: return 512; case 6: return 1 + (i64)r.below(40); default: return 1 + (i64)r.below((uint64_t)std::max<i64>(1, np)); }
  }
  void q_batch(int mode = -1, i64 mx = -1) {
    if (mode < 0) mode = ch(0.8) ? (int)r.below(4) : 4 + (int)r.below(2);
    int s = mode == 3 || mode == 4 ? (task >= 0 ? slot(G_BATCH) : rslot(G_BATCH)) : mode == 0 || mode == 5 ? rslot(G_GRID) : slot(G_GRID);
    if (s < 0) { if (mode == 3 || mode == 4) mode = 0; s = slot(G_GRID); if (s < 0) { any_grid(); s = slot(G_GRID); if (s < 0) return; } }
    Op o; o.code = O_BATCH; o.a[0] = mode; o.a[1] = mx >= 0 ? mx : some_max(info(s).np); o.a[2] = r.below(8); o.src = s; o.dst = dst(s);
    add(o); SK k; k.k = G_BATCH; k.rp = info(s).rp; k.ap = info(s).ap; k.np = info(s).np; k.mode = mode; k.typed = info(s).typed;
    if (certain(p.ops.back())) { if (mode == 1 && info(s).typed && s < 100) w()[s].k = G_NONE; } else if (mode == 1 && s < 100) w()[s].k = G_NONE;
    set(o.dst, k);
  }
  void any_grid() { switch (r.below(6)) { case 0: case 1: q_ugrid(); break; case 2: q_pgrid(); break; case 3: q_tgrid(); break; case 4: q_tpgrid(); break; default: q_gen(); } }
  void any_request() {
    switch (r.below(14)) { case 0: q_rad(); break; case 1: q_ang(); break; case 2: case 3: q_prim(); break; case 4: q_ugrid(); break; case 5: q_pgrid(); break; case 6: q_uspec(); break; case 7: q_pspec(); break; case 8: q_pspecv(); break; case 9: q_gen(); break; case 10: q_gen(); break; case 11: q_tgrid(); break; case 12: q_rgp(); break; default: q_tpgrid(); }
  }
  void q_name() {
    Op o; bool an = ch(0.5); o.code = an ? O_NAMEA : O_NAMER;
    static const std::vector<std::string> R = {"Becke", "MurrayHandyLaming", "MHL", "MuraKnowles", "MK", "TreutlerAhlrichs", "TA"}, A = {"AhrensBeylkin", "AB", "Delley", "LebedevLaikov", "Lebedev", "LL", "Womersley"};
    static const std::vector<std::string> BAD = {"", " ", "Beck", "Becke ", " becke", "BECKEBECKE", "\xdd" "MHL", "L\xdd" "ebedev", "murrayhandylam\xfdng", "MURRAYHANDYLAM\xddNG", "treutlerahlr\xfd" "chs", "DELLEY\xe9", "\xfftA", "xbecke", "mk1", "mhx", "Womersle", "Lebedev-Laikov", "lebedev laikov", "AhrensBeylk\xc4\xb1n"};
    std::string s = pick(an ? A : R); bool kin = false;
    if (!said.empty() && ch(0.4)) { // akin to a name asked for before: longer, shorter, the other half, for the other kind of scheme
      s = pick(said); kin = true;
      switch (r.below(8)) {
        case 0: s += (char)(ch(0.7) ? "AKLM 1e"[r.below(7)] : r.below(256)); break;
        case 1: if (!s.empty()) s.pop_back(); break;
        case 2: if (!s.empty()) s[s.size() - 1] = "AKLM 1e"[r.below(7)]; break;
        case 3: if (!s.empty()) s[0] = "AKLM 1e"[r.below(7)]; break;
        case 4: s = s.substr(0, (s.size() + 1) / 2); break;
        case 5: if (!s.empty()) s.erase(0, 1); break;
        default: if (ch(0.5)) { an = !an; o.code = an ? O_NAMEA : O_NAMER; } break;
      }
    }
    switch (kin ? 9 : r.below(10)) {
      case 0: s = pick(BAD); break;
      case 1: s = pick(an ? R : A); break;
      case 2: { size_t k = r.below(s.size()); s[k] = (char)r.below(256); break; }
      case 3: if (ch(0.5)) s += (char)r.below(256); else s.insert(r.below(s.size() + 1), 1, (char)r.below(256)); break;
      case 4: if (ch(0.3)) s += std::string(1, '\0'); break;
      default: break;
    }
    int mode = (int)r.below(4);
    for (auto& c : s) { unsigned char u = (unsigned char)c; bool al = (u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z'); if (!al) continue; if (mode == 0) c = (char)(u | 32); else if (mode == 1) c = (char)(u & ~32); else if (mode == 2) c = (char)(ch(0.5) ? u | 32 : u & ~32); }
    said.push_back(s); o.s = s; add(o, ch(0.3));
  }
  // one kind of request, for several values of one of its parameters, in no particular order
  void q_family(int m) {
    auto rs = rads; auto as = angs; int K = (int)r.below(9), vary = (int)r.below(4), sc = (int)r.below(5); AP b{(int)r.below(4), 0}; b.na = pick(ANG_S[b.aq]); RP a = pick(rads);
    for (int i = 0; i < m; i++) {
      AP c = b; RP q = a;
      switch (vary) { case 0: case 1: c.na = pick(ANG_S[b.aq]); break; case 2: q.n = 1 + (i64)r.below((uint64_t)std::max<i64>(2, a.n * 2)); break; default: if (ch(0.5)) q.R = some_R(); else { q.rq = 3; q.al = r.unit(); } }
      while (q.n * c.na > maxpts && q.n > 1) q.n /= 2;
      rads.assign(1, q); angs.assign(1, c);
      switch (K) { case 0: q_rad(); break; case 1: q_ang(); break; case 2: q_ugrid(); break; case 3: case 4: case 5: for (int k = 0; k < 12; k++) if (w()[k].k == G_USPEC) w()[k].k = G_NONE; q_uspec(); q_pspec(sc); if (K == 5) q_gen(); break; case 6: q_pgrid(); break; case 7: q_ugrid(); q_batch(0); break; default: q_prim(); }
    }
    rads = rs; angs = as;
  }
  // ----------------------------------------------------------------- uses
  int any_slot(bool rd) { int c[24], n = 0; for (int i = 0; i < 12; i++) if (w()[i].k != G_NONE) c[n++] = i; if (rd && task >= 0 && task < 8) for (int i = 0; i < 12; i++) if (own[0][i].k != G_NONE) c[n++] = 100 + i; return n ? c[r.below(n)] : -1; }
  void q_copy() { int s = any_slot(true); if (s < 0) return; Op o; o.code = O_COPY; o.src = s; o.dst = dst(s); add(o); SK k = info(s); if (k.k != G_FQ && !(k.k == G_GRID && !k.typed)) set(o.dst, k); }
  void q_move() { int s = any_slot(false); if (s < 0) return; Op o; o.code = O_MOVE; o.src = s; o.dst = dst(s); add(o, false); SK k = info(s); if (k.k == G_Q || k.k == G_RGP || k.k == G_BATCH || k.k == G_PROD || (k.k == G_GRID && k.typed)) { w()[s].k = G_NONE; set(o.dst, k); if (ch(0.15)) { Op c; c.code = O_COPY; c.src = s; c.dst = dst(s, o.dst); add(c); w()[c.dst].k = G_NONE; } } }
  void q_clone() { int s = rslot(G_GRID); if (s < 0 || ch(0.5)) { int b = rslot(G_BATCH); if (b >= 0) s = b; } if (ch(0.1)) { int b = rslot(G_TRAITS); if (b >= 0) s = b; } if (s < 0) return; Op o; o.code = O_CLONE; o.src = s; o.dst = dst(s); add(o); SK k = info(s); if (k.k == G_GRID) k.typed = info(s).typed; set(o.dst, k); }
  void q_assign() {
    int d = slot(G_PSPEC), s = rslot(G_PSPEC); bool mv = false;
    if (ch(0.4) || d < 0) { int ty = (int)r.below(3); int a = slot(G_RGP, ty), b = slot(G_RGP, ty); if (a >= 0 && b >= 0) { d = a; s = b; mv = a != b && ch(0.5); if (!mv && ch(0.3)) { int q = rslot(G_RGP, ty); if (q >= 0) s = q; } } }
    if (d < 0 || s < 0) return;
    Op o; o.code = mv ? O_ASSIGNMV : O_ASSIGN; o.dst = d; o.src = s; add(o);
    if (certain(p.ops.back())) { SK k = info(s); if (mv && s < 100) w()[s].k = G_NONE; w()[d] = k; }
  }
  void q_destroy() { int s = any_slot(false); if (s < 0) return; Op o; o.code = O_DESTROY; o.dst = s; add(o, false); w()[s].k = G_NONE; }
  void q_recenter(bool extreme = false) { int s = slot(G_GRID); if (s < 0 || ch(0.4)) { int b = slot(G_BATCH); if (b >= 0) s = b; } if (s < 0) return; Op o; o.code = O_RECENTER; o.dst = s; cen(o); if (extreme) { static const double X[] = {1e16, -1e16, 1e30, 1e300, -1e308, 5e-324, 1e-300, INFINITY, -INFINITY, NAN, 4503599627370497.0, 1e15}; for (int k = 0; k < 3; k++) if (ch(0.6)) o.d[k] = X[r.below(12)]; } if (ch(0.1)) { o.d[3] = 1; } add(o); }
  void q_editw() { int s = slot(G_GRID); if (s < 0 || ch(0.4)) { int b = slot(G_BATCH); if (b >= 0) s = b; } if (s < 0) return; Op o; o.code = O_EDITW; o.dst = s; o.a[0] = r.below(7); add(o, false); }
  void q_editp() { int s = slot(G_GRID); if (s < 0) return; Op o; o.code = O_EDITP; o.dst = s; o.a[0] = r.below(14); o.a[1] = r.below(1000); o.d[0] = coord(); if (ch(0.2)) o.d[0] = ch(0.5) ? 1e308 : 1e-310; add(o, false); }
  void q_editq() { int s = slot(G_Q); if (s < 0 || ch(0.4)) { int b = slot(G_FQ); if (b >= 0) s = b; } if (s < 0) return; Op o; o.code = O_EDITQ; o.dst = s; o.a[0] = r.below(100); o.a[1] = r.below(3); o.d[0] = 0.5 + r.unit(); add(o, false); }
  void q_bat() { int s = rslot(G_BATCH); if (s < 0) { q_batch(); s = slot(G_BATCH); if (s < 0) return; } Op o; o.code = O_BAT; o.src = s; o.a[0] = r.below(ch(0.5) ? 10000 : 1000000); o.a[1] = ch(0.2) ? 1 + r.below(2) : 0; o.a[2] = r.below(2); add(o); }
  void q_biter() { int s = slot(G_BATCH); if (s < 0) { q_batch(); s = slot(G_BATCH); if (s < 0) return; } Op o; o.code = O_BITER; o.src = s; o.a[0] = r.below(5); add(o); }
  void q_read() { int s = any_slot(true); if (s < 0) return; Op o; o.code = ch(0.3) ? O_VISIT : O_READ; o.src = s; add(o); }
  void q_vec() { int s = ch(0.5) ? slot(G_PROD) : slot(G_GRID); if (s < 0) { q_prod(); s = slot(G_PROD); if (s < 0) return; } Op o; o.code = O_VEC; o.src = s; o.a[0] = r.below(4); add(o); }
  void q_drop() { int s = slot(G_BATCH); if (s < 0) return; Op o; o.code = O_DROP; o.dst = s; add(o, false); }
  void q_specmut() { int s = slot(G_PSPEC); if (s < 0 || ch(0.4)) { int b = slot(G_USPEC); if (b >= 0) s = b; } if (s < 0) return; Op o; o.code = O_SPECMUT; o.dst = s; RP a = rad(); setr(o, a); AP b = AP{(int)r.below(4), 0}; b.na = pick(ANG_S[b.aq]); seta(o, b); o.a[4] = r.below(2); o.a[5] = r.below(4); add(o); }
  void q_mini() {
    Op o; o.code = O_MINI; o.a[0] = r.below(2); o.a[1] = 1 + (i64)r.below(ch(0.9) ? 12 : 60); o.a[3] = pick(std::vector<i64>{6, 14, 26, 50}); i64 np = o.a[1] * o.a[3];
    o.a[4] = ch(0.2) ? 1 : some_max(np); o.a[5] = r.below(32); for (int k = 0; k < 4; k++) { o.d[k] = coord(); if (ch(0.3)) o.d[k] = (double)r.range(-4, 4); } if (ch(0.2)) o.d[0] = o.d[1] = o.d[2] = 0;
    add(o);
  }
  // a little program of calls, with nothing read in between (see quiet.hpp)
  void quiet_program(Op& o, int prop, bool shared) {
    o.a[1] = 1 + (i64)r.below(ch(0.9) ? 8 : 20); o.a[3] = pick(std::vector<i64>{6, 14, 26, 50});
    for (int k = 0; k < 4; k++) o.d[k] = ch(0.5) ? (double)r.range(-4, 4) : 20 * (r.unit() - 0.5);
    auto in = [&](int c) { o.v.insert(o.v.end(), {c, (i64)r.below(4), (i64)r.below(6), (i64)r.below(1000)}); };
    static const std::vector<int> GRID = {0, 1, 2, 4, 4, 5, 6, 14, 15, 16, 7, 9, 26, 27}, BAT = {0, 2, 8, 8, 9, 10, 11, 12, 13, 17, 18, 5, 28, 26, 4}, REG = {20, 21, 21, 22, 23, 3, 3, 18, 19, 24, 25, 29};
    auto some = [&] { const auto& v = prop == 7 ? GRID : prop == 5 || prop == 6 ? BAT : prop == 13 ? REG : ch(0.4) ? GRID : ch(0.5) ? BAT : REG; in(ch(0.1) ? (int)r.below(30) : pick(v)); };
    if (prop == 13 || ch(0.3)) { in(20); in(21); if (ch(0.5)) in(21); if (ch(0.7)) in(22); if (ch(0.5)) in(3); }
    if (prop != 13 || ch(0.5)) { static const int mk[] = {0, 1, 2}; in(mk[r.below(3)]); if (ch(0.5)) in(mk[r.below(3)]); if (ch(0.5)) in(2); }
    int n = 2 + (int)r.below(shared ? 6 : 10); for (int i = 0; i < n; i++) some();
  }
  void q_quiet(int prop) { Op o; o.code = O_QUIET; quiet_program(o, prop, false); add(o, false); }
  void q_qshare() { Op o; o.code = O_QSHARE; quiet_program(o, 4, true); add(o, false); }
  void q_qlook(bool whole = false) { Op o; o.code = O_QLOOK; o.a[4] = whole ? 0 : (i64)r.below(5); o.a[5] = r.below(4); add(o, false); }
  void inner(Op& o) { RP a; AP b; pair(a, b); o.v = {a.rq, a.n, b.aq, b.na}; o.d[2] = a.R; o.d[3] = a.al; o.a[5] = r.below(8); }
  void q_nest() { Op o; o.code = O_NEST; RP a; AP b; pair(a, b); a.rq = 0; setr(o, a); seta(o, b); o.a[4] = r.below(7); inner(o); add(o); }
  void q_throw() { Op o; o.code = O_THROW; RP a; AP b; pair(a, b); a.rq = 0; setr(o, a); seta(o, b); o.a[4] = r.below(14); o.a[5] = r.below(6); o.d[3] = r.unit(); add(o, false); }
  void q_edge() { // what a client still does with its objects when a thread or the process ends
    switch (r.below(9)) { case 0: case 1: q_read(); break; case 2: q_copy(); break; case 3: q_clone(); break; case 4: case 5: q_destroy(); break; case 6: q_assign(); break; case 7: if (slot(G_BATCH) >= 0) q_bat(); else q_read(); break; default: if (slot(G_BATCH) >= 0) q_biter(); else q_move(); }
  }
  void q_locale() { Op o; o.code = O_LOCALE; o.a[0] = ch(0.6) ? 1 : r.below(5); o.a[1] = r.below(4); o.a[2] = r.below(2); add(o, false); }
  void q_log() { Op o; o.code = O_LOG; o.a[0] = r.below(4); o.a[1] = ch(0.5) ? r.below(40) : r.below(2000); o.a[2] = r.below(16); add(o, false); }
  void q_bad() {
    Op o; o.code = O_BAD; RP a = rad(); setr(o, a); AP b; b.aq = (int)r.below(4);
    switch (r.below(4)) { case 0: b.na = pick(ANG_BAD[b.aq]); break; case 1: b.na = pick(ANG_S[b.aq]) + (ch(0.5) ? 1 : -1); break; case 2: { int k = (int)r.below(4); b.na = pick(ANG_S[k]); break; } default: b.na = (i64)r.below(6000); }
    seta(o, b); o.a[4] = r.below(48); o.a[5] = ch(0.5) ? (i64)r.below(64) : (i64)(r.next() & 0xffffffff); if (ch(0.3)) o.a[4] = 16 + r.below(4); else if (ch(0.35)) o.a[4] = 26 + r.below(10);
    int s = slot(G_Q); if (s < 0 || ch(0.5)) { int t = ch(0.5) ? slot(G_GRID) : slot(G_FQ); if (t >= 0) s = t; } o.src = s < 0 ? 0 : s; if (s >= 0 && ch(0.15)) o.a[4] = 23;
    add(o, ch(0.2));
  }
  void use() {
    switch (r.below(16)) { case 0: case 1: q_copy(); break; case 2: q_move(); break; case 3: q_clone(); break; case 4: q_assign(); break; case 5: q_destroy(); break; case 6: case 7: q_recenter(); break; case 8: q_editw(); break; case 9: q_editq(); break; case 10: q_read(); break; case 11: q_batch(); break; case 12: q_bat(); break; case 13: q_biter(); break; case 14: q_specmut(); break; default: if (ch(0.5)) q_vec(); else q_drop(); }
  }
  void env() {
    Env& e = p.env;
    e.fill = (int)r.below(FILL_N); e.reuse = (int)r.below(REUSE_N); e.derived_exc = ch(0.3); e.layout_seed = r.next() >> 16; e.clock = ch(0.7) ? CLK_STEPS : (int)r.below(CLK_N); e.clock_seed = r.next() >> 16; e.sched_seed = r.next() >> 16;
  }
};

static void g_fpu(Gen& g, double p, double ftz) { // the caller computes in another rounding mode, or with denormals flushed
  if (g.ch(p)) g.p.env.fpu = 1 + (int)g.r.below(3);
  if (g.ch(ftz)) g.p.env.fpu |= 4;
}
// all points in one place, and counts around the widths integers come in
static void g_coincident(Gen& g) {
  Rng& r = g.r; static const i64 T[] = {256, 512, 32768, 65536, 65536, 131072};
  i64 t = T[r.below(6)], na = std::vector<i64>{6, 14, 26, 110}[r.below(4)], n = (t + na - 1) / na + (i64)r.below(3);
  g.rads.assign(1, RP{0, n, g.ch(0.5) ? 0.0 : 1.0, -1}); g.angs.assign(1, AP{2, na}); g.maxpts = 400000;
  Op o; o.code = O_UGRID; Gen::setr(o, g.rads[0]); Gen::seta(o, g.angs[0]); o.dst = 0; g.add(o); SK k; k.k = G_GRID; k.rp = g.rads[0]; k.ap = g.angs[0]; k.np = n * na; g.set(0, k);
  if (g.rads[0].R != 0 || g.ch(0.2)) { Op e; e.code = O_EDITP; e.dst = 0; e.a[0] = g.ch(0.7) ? 0 : g.ch(0.5) ? 3 : 7; e.a[1] = r.below(1000); e.d[0] = g.ch(0.5) ? 0 : g.coord(); g.add(e, false); }
  static const i64 M[] = {1000, 4096, 8191, 30000, 32768, 65535, 65536, 100, 40000, 70000, 1ll << 31, 1ll << 40};
  g.q_batch(g.ch(0.5) ? 2 : 0, t <= 512 ? 1 + (i64)r.below(300) : M[r.below(12)]);
  if (g.ch(0.3)) g.q_recenter();
  if (g.ch(0.7)) { g.q_biter(); if (g.ch(0.5)) g.q_biter(); g.q_bat(); }
}

// more batches than the widths integers come in
static void g_many(Gen& g) {
  Rng& r = g.r; i64 t = g.ch(0.3) ? 32768 : 65536, na = std::vector<i64>{974, 1202, 590, 302}[r.below(4)], n = (t + na - 1) / na + (i64)r.below(3);
  g.rads.assign(1, RP{(int)r.below(4), n, 1.0, -1}); g.angs.assign(1, AP{2, na}); g.maxpts = 400000;
  Op o; o.code = O_UGRID; Gen::setr(o, g.rads[0]); Gen::seta(o, g.angs[0]); o.dst = 0; g.add(o); SK k; k.k = G_GRID; k.rp = g.rads[0]; k.ap = g.angs[0]; k.np = n * na; g.set(0, k);
  g.q_batch(g.ch(0.5) ? 2 : 0, 1); g.q_bat(); g.q_biter(); g.q_bat();
}

static void g_tasks(Gen& g, int nt, int per) {
  g.conc = true;
  Env& e = g.p.env;
  e.race = true;
  double x = g.r.unit();
  e.strat = x < 0.4 ? ST_RACE : x < 0.75 ? ST_GAP : ST_PCT;
  static const double gaps[] = {5, 30, 200, 1500, 10000, 60000}; e.gap = gaps[g.r.below(6)];
  e.pct_d = 1 + (int)g.r.below(5); static const uint64_t lens[] = {2000, 20000, 200000, 1000000}; e.pct_len = lens[g.r.below(4)];
  (void)nt; (void)per;
}

Plan generate(int prop, uint64_t seed, const std::string& variant) {
  Gen g(seed, prop); Rng& r = g.r;
  g.p.prop = prop; g.p.seed = seed; g.p.variant = variant;
  g.env();
  static const struct { int prop; double p, ftz; } FP[] = {{1, 0.05, 0.02}, {2, 0.05, 0.02}, {5, 0.12, 0}, {6, 0.2, 0.1}, {7, 0.12, 0.03}, {8, 0.05, 0.02}, {12, 0.03, 0}, {13, 0.05, 0}, {21, 0.5, 0.25}};
  for (auto& f : FP) if (f.prop == prop) g_fpu(g, f.p, f.ftz);
  auto big = [&](double pr, i64 m) { if (g.ch(pr)) { g.maxpts = m; return true; } return false; };
  switch (prop) {
    case 1: {
      bool lng = g.ch(0.25), vl = g.ch(0.05); // long, and longer than any table of recent requests is likely to be
      if (vl) g.pools(20 + (int)r.below(60), 10 + (int)r.below(20), 10);
      else g.pools(lng ? 12 : 2 + (int)r.below(3), lng ? 8 : 2 + (int)r.below(3), lng ? 20 : 40, g.ch(0.15));
      g.maxpts = vl ? 90 : lng ? 400 : 2000; if (!vl) big(0.03, 20000);
      int n = vl ? 300 + (int)r.below(150) : lng ? 60 : 10 + (int)r.below(20);
      for (int i = 0; i < n; i++) {
        double x = r.unit();
        g.p_fault = g.ch(0.2) ? 0.3 : 0;
        if (x < 0.66) g.any_request(); else if (x < 0.72) g.q_name(); else if (x < 0.78) g.q_bad(); else if (x < 0.82) g.q_editq(); else if (x < 0.85) g.q_editw(); else if (x < 0.88) g.q_destroy(); else if (x < 0.90) g.q_locale(); else if (x < 0.92) g.q_specmut(); else g.use();
      }
      break;
    }
    case 2: {
      g.pools(2, 3, 12); g.maxpts = 500; big(0.1, 3000);
      int n = 4 + (int)r.below(10);
      for (int i = 0; i < n; i++) {
        double x = r.unit();
        if (x < 0.45) { g.p_sweep = 0.8; g.p_rep = 0.5; g.p_fault = 0; } else if (x < 0.8) { g.p_sweep = 0; g.p_fault = 0.8; g.p_rep = 0.3; } else { g.p_sweep = g.p_fault = 0; g.p_rep = 0.5; }
        if (g.ch(0.5)) g.any_request(); else if (g.ch(0.2)) g.q_prod(); else if (g.ch(0.1)) g.q_traits(); else if (g.ch(0.05)) g.q_name(); else if (g.ch(0.04)) g.q_mini(); else g.use();
      }
      break;
    }
    case 3: {
      g.pools(3, 3, 12); g.maxpts = 400; big(0.08, 3000);
      int n = 8 + (int)r.below(12);
      for (int i = 0; i < n; i++) {
        bool setup = i < 4 || g.ch(0.2);
        g.p_sweep = setup ? 0 : 0.55; g.p_fault = setup ? 0 : 0.7;
        if (setup) { switch (r.below(6)) { case 0: g.q_pspec(); break; case 1: g.q_pspecv(); break; case 2: g.q_rgp(g.ch(0.4)); break; case 3: g.any_grid(); break; case 4: g.q_batch(); break; default: g.any_grid(); } }
        else switch (r.below(12)) {
          case 0: case 1: g.q_assign(); break;
          case 2: { int s = g.slot(G_RGP); if (s >= 0) { g.q_rgpadd(s); if (g.ch(0.4)) g.q_rgpfin(s); } else g.q_rgp(false); break; }
          case 3: g.q_batch(2); break; case 4: g.q_batch(); break; case 5: g.q_clone(); break; case 6: g.q_copy(); break; case 7: g.q_gen(); break; case 8: g.q_specmut(); break; case 9: g.q_tpgrid(); break; case 10: g.q_recenter(); break; default: if (g.ch(0.5)) g.q_bat(); else if (g.ch(0.3)) g.q_biter(); else g.use();
        }
      }
      break;
    }
    case 4: {
      g.pools(2 + (int)r.below(2), 2 + (int)r.below(2), 12, g.ch(0.1)); g.maxpts = 300; big(0.08, 2000);
      int setup = (int)r.below(6);
      for (int i = 0; i < setup; i++) { double x = r.unit(); if (x < 0.3) g.any_grid(); else if (x < 0.45) g.q_batch(); else if (x < 0.55) g.q_rgp(); else if (x < 0.7) g.q_pspec(); else if (x < 0.8) g.q_prod(); else if (x < 0.9) g.q_prim(); else g.any_request(); }
      if (g.ch(0.1)) g.q_locale();
      bool qs = g.ch(0.25); if (qs) g.q_qshare();
      int nt = 2 + (int)r.below(3);
      g_tasks(g, nt, 0);
      bool same = g.ch(0.35); // every task makes the same kind of request first
      uint64_t s0 = r.next();
      for (int t = 0; t < nt; t++) {
        g.task = t; int n = 1 + (int)r.below(5); g.p_fault = g.ch(0.15) ? 0.3 : 0;
        if (qs) { int k = 1 + (int)r.below(3); for (int i = 0; i < k; i++) g.q_qlook(g.ch(0.4)); }
        Rng keep = g.r; if (same) g.r = Rng(s0);
        for (int i = 0; i < n; i++) {
          double x = r.unit();
          if (same && i == 1) { g.r = keep; for (int q = 0; q <= t; q++) g.r.next(); }
          if (x < 0.42) g.any_request(); else if (x < 0.5) g.q_name(); else if (x < 0.54) g.q_bad(); else if (x < 0.7) g.q_read(); else if (x < 0.78) g.q_copy(); else if (x < 0.85) g.q_clone(); else if (x < 0.9) g.q_bat(); else g.use();
        }
        if (same && n <= 1) { g.r = keep; for (int q = 0; q <= t; q++) g.r.next(); }
      }
      g.p_fault = 0;
      g.task = 100; int n = (int)r.below(3); for (int i = 0; i < n; i++) g.any_request();
      if (qs) g.q_qlook(true);
      break;
    }
    case 5: {
      g.pools(2, 3, 30, g.ch(0.2)); g.maxpts = 1500; big(0.06, 12000); big(0.004, 120000);
      if (g.ch(0.08)) g.rads[0].n = 0;
      if (g.ch(0.006)) { g_coincident(g); break; }
      if (g.ch(0.002)) { g_many(g); break; }
      int n = 6 + (int)r.below(12); g.any_grid(); g.q_batch();
      if (g.ch(0.25)) { g.p_fault = 0.15; }
      for (int i = 0; i < n; i++) if (g.ch(0.04)) g.q_mini(); else if (g.ch(0.04)) g.q_quiet(5); else switch (r.below(16)) {
        case 0: case 1: case 2: g.q_batch(); break; case 3: g.q_biter(); break; case 4: case 5: g.q_bat(); break; case 6: case 7: g.q_recenter(g.ch(0.1)); break; case 8: case 9: g.q_editw(); break; case 10: g.q_clone(); break; case 11: g.q_move(); break; case 12: g.q_editp(); break; case 13: g.any_grid(); break; case 14: g.q_copy(); break; default: if (g.ch(0.5)) g.q_drop(); else g.q_destroy();
      }
      break;
    }
    case 6: {
      g.pools(2, 2, 16); g.maxpts = 300; big(0.1, 1500); big(0.02, 12000); big(0.003, 120000);
      if (g.ch(0.35)) for (auto& q : g.rads) { static const double X[] = {0, 1e-300, 1e300, 1e-30, 1e30, 1e150, 1e-150, 5e-324, INFINITY, 1e-16, 1e16}; if (g.ch(0.7)) q.R = X[r.below(11)]; }
      if (g.ch(0.1)) g.rads[0].n = 0;
      if (g.ch(0.008)) { g_coincident(g); break; }
      int n = 3 + (int)r.below(7);
      for (int i = 0; i < n; i++) {
        if (g.ch(0.06)) { g.q_mini(); if (g.ch(0.7)) g.p.ops.back().a[5] |= g.ch(0.5) ? 4 : 8; }
        switch (r.below(8)) { case 0: g.any_grid(); break; case 1: case 2: case 3: if (g.slot(G_GRID) < 0) g.any_grid(); g.q_editp(); break; case 4: case 5: if (g.slot(G_GRID) < 0) g.any_grid(); g.q_recenter(g.ch(0.6)); break; default: g.any_grid(); }
        i64 mx = g.ch(0.25) ? 1 : g.ch(0.1) ? 0 : g.ch(0.3) ? 1 + (i64)r.below(10) : -1;
        g.q_batch(g.ch(0.3) ? 2 : (int)r.below(4), mx);
        if (g.ch(0.2)) g.q_biter();
        if (g.ch(0.15)) g.q_clone();
      }
      break;
    }
    case 7: {
      g.pools(3, 3, 30, g.ch(0.2)); g.maxpts = 1500; big(0.05, 12000); big(0.003, 120000);
      if (g.ch(0.06)) { static const double X[] = {1e-100, 1e-102, 1e-104, 1e-106, 1e-90, 1e-50, 1e50, 1e90, 1e100}; for (auto& q : g.rads) if (g.ch(0.7)) q.R = X[r.below(9)]; }
      int n = 6 + (int)r.below(14); g.any_grid();
      if (g.ch(0.2)) g.p_fault = 0.2;
      for (int i = 0; i < n; i++) if (g.ch(0.05)) g.q_mini(); else if (g.ch(0.08)) g.q_quiet(7); else switch (r.below(14)) {
        case 0: case 1: g.any_grid(); break; case 2: g.q_editq(); break; case 3: g.q_clone(); break; case 4: g.q_batch(); break; case 5: g.q_copy(); break; case 6: g.q_move(); break; case 7: g.q_editw(); break; case 8: if (g.ch(0.3)) g.q_destroy(); else g.q_tpgrid(); break; default: g.q_recenter(g.ch(0.05));
      }
      break;
    }
    case 8: {
      g.pools(3, 3, 16); g.maxpts = 500; big(0.05, 5000);
      int n = 10 + (int)r.below(16); if (g.ch(0.2)) g.p_fault = 0.15;
      for (int i = 0; i < n; i++) {
        if (g.ch(0.03)) g.q_mini(); else if (g.ch(0.08)) g.q_quiet(8); else if (i < 3 || g.ch(0.3)) { switch (r.below(10)) { case 0: g.q_prim(); break; case 1: g.q_prod(); break; case 2: g.q_rgp(g.ch(0.5)); break; case 3: g.q_pspec(); break; case 4: g.q_pspecv(); break; case 5: g.q_uspec(); break; case 6: g.q_batch(); break; case 7: g.q_traits(); break; case 8: g.q_sub(); break; default: g.any_grid(); } }
        else if (g.ch(0.35)) { if (g.ch(0.6)) g.q_copy(); else g.q_clone(); }
        else if (g.ch(0.15)) { int s = g.slot(G_RGP); if (s >= 0) g.q_rgpadd(s); } else if (g.ch(0.1)) g.q_assign(); else if (g.ch(0.08)) g.q_vec(); else g.use();
      }
      break;
    }
    case 9: {
      g.p.env.clock = (int)r.below(CLK_N);
      g.pools(2, 3, 20); g.maxpts = 1000; big(0.05, 8000);
      int n = 5 + (int)r.below(8); g.any_grid();
      for (int i = 0; i < n; i++) { double x = r.unit(); g.p_fault = g.ch(0.1) ? 0.2 : 0; if (g.ch(0.03)) g.q_mini(); else if (x < 0.25) g.q_log(); else if (x < 0.7) g.q_batch(); else if (x < 0.8) g.any_grid(); else if (x < 0.9) g.any_request(); else g.use(); }
      break;
    }
    case 10: {
      g.pools(2, 2, 12); g.maxpts = 400;
      int n = 10 + (int)r.below(30); if (g.ch(0.7)) g.q_locale();
      for (int i = 0; i < n; i++) { double x = r.unit(); if (x < 0.12) g.q_locale(); else if (x < 0.85) g.q_name(); else if (x < 0.93) g.any_request(); else g.q_batch(); }
      break;
    }
    case 11: {
      g.pools(2, 3, 12); g.maxpts = 400;
      int n = 10 + (int)r.below(20);
      for (int i = 0; i < n; i++) { double x = r.unit(); if (x < 0.62) g.q_bad(); else if (x < 0.68) g.q_name(); else if (x < 0.72) { g.q_batch(-1, 0); } else if (x < 0.76) { g.q_bat(); } else if (x < 0.92) g.any_request(); else g.use(); }
      break;
    }
    case 12: {
      g.pools(2, 3, 16); g.maxpts = 500; big(0.05, 5000);
      g.p.env.reuse = g.ch(0.7) ? REUSE_LIFO : (int)r.below(REUSE_N);
      int n = 10 + (int)r.below(20); if (g.ch(0.25)) g.p_fault = 0.15;
      for (int i = 0; i < n; i++) { double x = r.unit(); if (g.ch(0.04)) g.q_quiet(12); else if (x < 0.35) g.any_request(); else if (x < 0.42) g.q_batch(); else if (x < 0.46) g.q_prod(); else if (x < 0.6) g.q_destroy(); else if (x < 0.65) g.q_editq(); else if (x < 0.7) g.q_specmut(); else if (x < 0.78) g.q_read(); else if (x < 0.82) g.q_drop(); else if (x < 0.85) g.q_move(); else g.use(); }
      break;
    }
    case 13: {
      g.pools(3, 3, g.ch(0.5) ? 8 : 40); g.maxpts = 3000; big(0.02, 20000);
      if (g.ch(0.5)) for (auto& q : g.rads) if (g.ch(0.7)) q.n = 1 + (i64)r.below(12);
      if (g.ch(0.06)) { static const i64 N[] = {127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 777, 1000}; g.maxpts = 30000; for (auto& q : g.rads) if (g.ch(0.6)) q.n = N[r.below(12)]; for (auto& a : g.angs) if (g.ch(0.7)) a.na = ANG_S[a.aq][r.below(3)]; }
      int n = 6 + (int)r.below(14); bool flt = g.ch(0.4);
      for (int i = 0; i < n; i++) {
        g.p_fault = flt && g.ch(0.5) ? 0.6 : 0; g.p_sweep = flt && g.ch(0.3) ? 0.4 : 0;
        if (g.ch(0.06)) g.q_quiet(13); else switch (r.below(14)) {
          case 0: case 1: g.q_rgp(g.ch(0.7)); break; case 2: { int s = g.slot(G_RGP); if (s >= 0) { g.q_rgpadd(s); if (g.ch(0.5)) g.q_rgpfin(s); } break; }
          case 3: g.q_tpgrid(); break; case 4: g.q_pgrid(); break; case 5: g.q_uspec(); break; case 6: case 7: g.q_pspec(); break; case 8: case 9: g.q_gen(); break; case 10: g.q_pspecv(); break; case 11: g.q_assign(); break; case 12: if (g.ch(0.5)) g.q_copy(); else g.q_move(); break; default: if (g.ch(0.4)) g.q_specmut(); else if (g.ch(0.5)) g.q_recenter(); else g.q_gen();
        }
      }
      break;
    }
  }
  if (prop == 21) { // whatever is called, however it ends, the caller's surroundings are as they were
    g.pools(2, 3, 16); g.maxpts = 500; big(0.05, 4000);
    int n = 8 + (int)r.below(16); bool flt = g.ch(0.5); if (g.ch(0.4)) g.q_locale();
    for (int i = 0; i < n; i++) {
      g.p_fault = flt && g.ch(0.5) ? 0.6 : 0; g.p_sweep = flt && g.ch(0.3) ? 0.3 : 0; double x = r.unit();
      if (g.ch(0.03)) g.q_mini(); else if (x < 0.34) g.any_request(); else if (x < 0.44) g.q_batch(); else if (x < 0.5) g.q_prim(); else if (x < 0.57) g.q_name(); else if (x < 0.72) g.q_bad(); else if (x < 0.76) g.q_log(); else if (x < 0.79) g.q_locale(); else if (x < 0.83) g.q_traits(); else if (x < 0.87) g.q_prod(); else if (x < 0.9) { if (g.slot(G_GRID) < 0) g.any_grid(); g.q_editp(); } else g.use();
    }
  }
  if (prop == 22) { // early, late, and in the middle of other calls
    g.pools(2, 3, 12); g.maxpts = 400; big(0.04, 3000);
    bool flt = g.ch(0.3);
    auto mixed = [&](int n, double nest) {
      for (int i = 0; i < n; i++) {
        g.p_fault = flt && g.ch(0.5) ? 0.5 : 0; g.p_sweep = flt && !g.conc && g.ch(0.2) ? 0.3 : 0; double x = r.unit();
        if (g.ch(nest)) g.q_nest(); else if (g.ch(0.03)) g.q_mini(); else if (x < 0.45) g.any_request(); else if (x < 0.6) g.q_name(); else if (x < 0.7) g.q_bad(); else if (x < 0.8) g.q_batch(); else if (x < 0.85) g.q_prod(); else g.use();
      }
      g.p_fault = g.p_sweep = 0;
    };
    auto tasks = [&](double nest, bool bye) {
      int nt = 2 + (int)r.below(3); g_tasks(g, nt, 0); g.p.env.race = false;
      for (int t = 0; t < nt; t++) {
        g.task = t; mixed(1 + (int)r.below(4), nest);
        if (bye && g.ch(0.8)) { size_t at = g.p.ops.size(); int n = 1 + (int)r.below(5); for (int i = 0; i < n; i++) g.q_edge(); for (; at < g.p.ops.size(); at++) g.p.ops[at].task = 20 + t; }
      }
      g.task = 100; mixed((int)r.below(3), 0);
    };
    double x = r.unit();
    if (variant == "early") { mixed(6 + (int)r.below(10), 0.1); if (g.ch(0.25)) tasks(0.1, false); }
    else if (x < 0.4) {
      if (variant == "verbose") { g.q_log(); Op& o = g.p.ops.back(); o.a[2] |= 16; g.inner(o); int n = 1 + (int)r.below(4); g.any_grid(); for (int i = 0; i < n; i++) g.q_batch(); }
      mixed(4 + (int)r.below(8), 0.55);
    }
    else if (x < 0.5) { mixed((int)r.below(4), 0.2); tasks(0.5, false); }
    else if (x < 0.75) {
      mixed(5 + (int)r.below(8), 0.05); g.task = 100; size_t at = g.p.ops.size(); int n = 3 + (int)r.below(9);
      for (int i = 0; i < n; i++) g.q_edge();
      for (; at < g.p.ops.size(); at++) g.p.ops[at].task = 102;
    }
    else { mixed(2 + (int)r.below(4), 0.05); tasks(0.05, true); }
  }
  if (prop == 24) { // the same history in other surroundings
    Env& e = g.p.env; e.sur = g.ch(0.3) ? 0 : r.next() >> 1 | 1;
    g.pools(3, 3, 16); g.maxpts = 600; big(0.06, 5000); big(0.01, 30000);
    int n = 8 + (int)r.below(16); if (g.ch(0.1)) g.q_locale();
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (g.ch(0.04)) g.q_mini(); else if (x < 0.36) g.any_request(); else if (x < 0.52) g.q_batch(); else if (x < 0.58) g.q_prim(); else if (x < 0.64) g.q_name(); else if (x < 0.7) g.q_bad(); else if (x < 0.74) g.q_prod(); else if (x < 0.78) { if (g.slot(G_GRID) >= 0) g.q_recenter(); else g.any_grid(); } else if (x < 0.81) { if (g.slot(G_GRID) >= 0) g.q_editp(); else g.any_grid(); } else if (x < 0.83 && variant == "verbose") g.q_log(); else g.use();
    }
  }
  if (prop == 26) { // the same history on every build of the library
    g.pools(3, 3, 20, g.ch(0.2)); g.maxpts = 700; big(0.06, 5000); big(0.01, 30000); g_fpu(g, 0.05, 0.02);
    if (g.ch(0.03)) { g_coincident(g); return g.p; }
    int n = 8 + (int)r.below(18); if (g.ch(0.1)) g.q_locale();
    auto some = [&](bool seq) {
      double x = r.unit();
      if (seq && g.ch(0.05)) g.q_mini(); else if (seq && g.ch(0.06)) g.q_quiet(1 + (int)r.below(13)); else if (x < 0.33) g.any_request(); else if (x < 0.45) g.q_batch(); else if (x < 0.52) g.q_prim(); else if (x < 0.58) g.q_name(); else if (x < 0.68) g.q_bad(); else if (x < 0.71) g.q_prod(); else if (x < 0.74) { if (g.slot(G_GRID) >= 0) g.q_recenter(g.ch(0.1)); else g.any_grid(); } else if (x < 0.77) { if (g.slot(G_GRID) >= 0) g.q_editp(); else g.any_grid(); } else g.use();
    };
    for (int i = 0; i < n; i++) some(true);
    if (g.ch(0.08)) { int nt = 2 + (int)r.below(2); g_tasks(g, nt, 0); g.p.env.race = false; for (int t = 0; t < nt; t++) { g.task = t; int m = 1 + (int)r.below(4); for (int i = 0; i < m; i++) some(false); } }
  }
  if (prop == 27) { // what it costs
    g.pools(3, 3, 24, g.ch(0.2)); g.maxpts = 2500; big(0.25, 12000); big(0.03, 60000); big(0.006, 200000);
    if (g.ch(0.4)) { static const i64 N[] = {120, 150, 200, 256, 400, 500, 777, 1000, 1500, 2000, 3000}; for (auto& q : g.rads) if (g.ch(0.5)) q.n = N[r.below(g.ch(0.3) ? 11 : 7)]; }
    if (g.ch(0.02)) { g_coincident(g); return g.p; }
    if (g.ch(0.01)) { g_many(g); return g.p; }
    int n = 6 + (int)r.below(12); bool flt = g.ch(0.2);
    for (int i = 0; i < n; i++) {
      double x = r.unit(); g.p_fault = flt && g.ch(0.3) ? 0.5 : 0;
      if (x < 0.42) g.any_request(); else if (x < 0.56) g.q_batch(); else if (x < 0.62) g.q_prim(); else if (x < 0.64) g.q_name(); else if (x < 0.68) g.q_bad(); else if (x < 0.71) g.q_prod(); else if (x < 0.74) g.q_traits(); else if (x < 0.79) { if (g.slot(G_GRID) >= 0) g.q_recenter(); else g.any_grid(); } else if (x < 0.81) { if (g.slot(G_GRID) >= 0) g.q_editp(); else g.any_grid(); } else g.use();
    }
  }
  if (prop == 25) { // client code that throws
    g.pools(2, 3, 12); g.maxpts = 300; big(0.06, 2500);
    auto mixed = [&](int n) { for (int i = 0; i < n; i++) { double x = r.unit(); if (x < 0.5) g.q_throw(); else if (x < 0.75) g.any_request(); else if (x < 0.85) g.q_batch(); else if (x < 0.9) g.q_prod(); else g.use(); } };
    mixed(5 + (int)r.below(9));
    if (variant == "verbose" && g.ch(0.5)) { g.q_throw(); g.p.ops.back().a[4] = 13; }
    if (g.ch(0.2)) { int nt = 2 + (int)r.below(2); g_tasks(g, nt, 0); g.p.env.race = false; for (int t = 0; t < nt; t++) { g.task = t; mixed(1 + (int)r.below(4)); } g.task = 100; mixed((int)r.below(3)); }
  }
  if (prop == 23) { // the same work, over and over
    Env& e = g.p.env; double x = r.unit(); bool flt = g.ch(0.2);
    auto body = [&](int n, bool tiny) {
      for (int i = 0; i < n; i++) {
        g.p_fault = flt && g.ch(0.5) ? 0.5 : 0; double y = r.unit();
        if (!tiny && g.ch(0.03)) g.q_mini(); else if (y < 0.4) g.any_request(); else if (y < 0.5) g.q_name(); else if (y < 0.6) g.q_bad(); else if (y < 0.72) g.q_batch(); else if (y < 0.76) g.q_prod(); else if (!tiny && y < 0.8) g.q_nest(); else g.use();
      }
      g.p_fault = 0;
    };
    bool tiny = x >= 0.35 && x < 0.67;
    g.pools(1 + (int)r.below(2), 2, tiny ? 4 : 8); g.maxpts = tiny ? 60 : 300;
    { int n = (int)r.below(4); for (int i = 0; i < n; i++) { if (g.ch(0.5)) g.any_grid(); else if (g.ch(0.5)) g.q_batch(); else g.any_request(); } for (auto& o : g.p.ops) o.task = 101; }
    if (x >= 0.62 && x < 0.67) {
      e.rounds = 65600 + (int)r.below(500); g.task = 0; g.p.ops.clear(); flt = false; for (auto& s : g.own[0]) s = SK();
      switch (r.below(5)) { case 0: g.q_name(); break; case 1: g.q_bad(); break; case 4: {
        g.rads.assign(1, RP{(int)r.below(4), 1 + (i64)r.below(2), 1.0, -1}); g.angs.assign(1, AP{3, g.ch(0.5) ? 3 : 6}); g.task = -1; g.q_ugrid(); for (auto& o : g.p.ops) o.task = 101; e.skip |= 2;
        size_t at = g.p.ops.size(); g.q_batch(g.ch(0.5) ? 0 : 2, 1 + (i64)r.below(3)); for (; at < g.p.ops.size(); at++) g.p.ops[at].task = 103;
        break; }
      case 2: g.rads[0].n = 1 + (i64)r.below(2); g.rads.resize(1); g.q_rad(); break; default: g.angs.assign(1, AP{3, 3}); g.q_ang(); }
    } else if (x < 0.67) {
      e.rounds = tiny ? 260 + (int)r.below(450) : 16; g.task = 0; if (g.ch(0.4)) { g.maxpts = std::min<i64>(g.maxpts, 100); g.q_family(2 + (int)r.below(5)); } else body(tiny ? 1 + (int)r.below(3) : 3 + (int)r.below(6), tiny);
      if (g.ch(0.4)) { // and long-lived objects used in every round
        g.task = -1; size_t at = g.p.ops.size(); int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: case 1: if (g.slot(G_GRID) >= 0) { g.q_recenter(); e.skip |= 2; } break; case 2: if (g.slot(G_GRID) >= 0) { g.q_batch(g.ch(0.5) ? 0 : 2); e.skip |= 2; } break; case 3: if (g.slot(G_BATCH) >= 0) g.q_bat(); break; case 4: if (g.slot(G_BATCH) >= 0) g.q_biter(); break; default: g.q_read(); }
        for (; at < g.p.ops.size(); at++) g.p.ops[at].task = 103;
      }
    } else {
      e.rounds = 8 + (int)r.below(8); int nt = 2 + (int)r.below(2); g_tasks(g, nt, 0); e.race = false;
      for (int t = 0; t < nt; t++) { g.task = t; body(1 + (int)r.below(4), false); }
    }
  }
  { // compare with a run under another environment (only without injected failures, whose effects may legitimately move)
    static const struct { int prop, twin; double p; } T[] = {{1, 1, 0.25}, {4, 3, 0.4}, {5, 1, 0.15}, {6, 1, 0.1}, {7, 1, 0.15}, {8, 1, 0.15}, {9, 2, 0.8}, {10, 4, 0.7}, {12, 1, 0.25}, {13, 1, 0.15}, {24, 5, 1.0}};
    bool ok = true;
    for (auto& o : g.p.ops) if (o.f.kind != F_NONE || o.sweep || (o.code == O_LOG && o.a[0] % 4 >= 2)) ok = false;
    Rng tr(seed * 77 + 5);
    if (ok && g.p.ops.size() < 500) for (auto& t : T) if (t.prop == prop && tr.chance(t.p)) g.p.twin = t.twin;
  }
  return g.p;
}
