// Included by ops.cpp.  Everywhere else the simulator reads every object after
// every operation.  A library that puts work off until somebody reads (a
// pending shift, a count made on demand) would never be caught with the work
// still pending.  Here a little program of library calls is carried out twice,
// once with every object read after every step and once with nothing read but
// what the program itself reads; both must end in the same state.  For tasks:
// objects made by nobody looking are read by all of them first thing.
namespace quiet {
using ST = ix::SphericalQuadrature<BK, LL>; using PT = ix::PrunedSphericalQuadrature<BK, LL>; using RGP = ix::RadialGridPartition<LL>;

struct GridSum { size_t n = 0; pt c{}; vector<double> ws; double m[8] = {0}; double scale = 0; };
struct Sum { vector<GridSum> g; vector<uint64_t> exact; const char* bad = nullptr; uint64_t who = 0; };

static void grid_sum(Sum& s, const Base& b) {
  GridSum g; g.n = b.npts(); g.c = b.center();
  if (b.points().size() != g.n || b.weights().size() != g.n) { s.bad = "a grid's points, weights and size do not agree"; s.who = PB(7) | PB(8); return; }
  g.ws = b.weights(); std::sort(g.ws.begin(), g.ws.end());
  for (size_t i = 0; i < g.n; i++) {
    auto& p = b.points()[i]; double w = b.weights()[i];
    double q[8] = {1, p[0], p[1], p[2], p[0] * p[0], p[1] * p[1], p[2] * p[2], p[0] * p[1] * p[2]};
    for (int k = 0; k < 8; k++) { g.m[k] += w * q[k]; }
    double a = std::max({1.0, std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2])}); g.scale += std::fabs(w) * a * a * a;
  }
  s.g.push_back(g);
}
static void batch_sum(Sum& s, const Batcher& t) {
  auto no = [&](const char* m) { if (!s.bad) { s.bad = m; s.who = PB(5) | PB(8); } };
  size_t pos = 0, nb = t.nbatches(), max = t.max_batch_size();
  for (size_t i = 0; i < nb; i++) {
    auto [lo, up, p, w] = t.at(i);
    if (p.empty() || p.size() > max || p.size() != w.size()) return no("a batch is empty, too large or not in pairs");
    pt l = p[0], u = p[0]; for (auto& x : p) for (int k = 0; k < 3; k++) { if (x[k] < l[k]) l[k] = x[k]; if (x[k] > u[k]) u[k] = x[k]; }
    if (!(FPM & 4) && (l != lo || u != up)) no("a batch's box is not the box of its points");
    for (size_t k = 0; k < p.size(); k++, pos++) if (pos >= t.points().size() || p[k] != t.points()[pos] || w[k] != t.weights()[pos]) return no("a batch holds other than the grid's consecutive points");
  }
  if (pos != t.npts()) no("the batches do not hold every point");
  s.exact.push_back(max);
  grid_sum(s, t.quadrature());
}
template <class Q> static void quad_sum(Sum& s, const Q& q) { uint64_t h = q.npts(); for (auto x : q.weights()) h = hm(h, bitsof(x)); for (auto& p : q.points()) h = hc(h, p); s.exact.push_back(h); }
static void rgp_sum(Sum& s, const RGP& r, bool fin) {
  uint64_t h = r.partition_idx().size(); for (auto i : r.partition_idx()) h = hm(h, i);
  if (fin) for (auto it = r.cbegin(); it != r.cend(); ++it) { auto v = *it; h = hm(h, v.first.first * 1000003 + v.first.second); h = hm(h, v.second.npts()); for (auto x : v.second.weights()) h = hm(h, bitsof(x)); }
  s.exact.push_back(h);
}
static void spec_sum(Sum& s, const ix::PrunedSphericalGridSpecification& p) { uint64_t h = (uint64_t)p.radial_quad + (p.radial_traits ? p.radial_traits->npts() : 77); for (auto& r : p.pruning_regions) h = hm(hm(h, r.idx_st * 1000003 + r.idx_en), (uint64_t)r.angular_quad * 100000 + r.angular_size); s.exact.push_back(h); }

struct Q {
  const Op* op; bool loud; vector<uint64_t> said; // what the program itself read
  std::shared_ptr<Base> g[4]; std::unique_ptr<Batcher> b[3]; std::unique_ptr<ST> t[2]; std::unique_ptr<PT> u[2]; std::unique_ptr<RGP> r[2]; bool fin[2] = {false, false}; size_t last[2] = {0, 0};
  std::unique_ptr<BK> bk; std::unique_ptr<LL> ll; std::unique_ptr<ix::PrunedSphericalGridSpecification> ps[2]; std::unique_ptr<ix::UnprunedSphericalGridSpecification> us;
  pt centre(int64_t k) const { auto& d = op->d; switch (k % 6) { case 0: return {0, 0, 0}; case 1: return {d[0], d[1], d[2]}; case 2: return {d[2], 0, d[0]}; case 3: return {0, 0, d[3]}; case 4: return {d[1], d[3], -d[2]}; default: return {d[0], d[1], d[3]}; } }
  static const int NI = 30;
  void all(Sum& s) const {
    for (auto& x : g) if (x) grid_sum(s, *x);
    for (auto& x : b) if (x) batch_sum(s, *x);
    for (auto& x : t) if (x) { grid_sum(s, *x); }
    for (auto& x : u) if (x) { grid_sum(s, *x); }
    for (int i = 0; i < 2; i++) if (r[i]) rgp_sum(s, *r[i], fin[i]);
    if (bk) quad_sum(s, *bk);
    if (ll) quad_sum(s, *ll);
    for (auto& x : ps) if (x) spec_sum(s, *x);
    s.exact.insert(s.exact.end(), said.begin(), said.end());
  }
  void instr(int64_t c, int64_t x, int64_t y, int64_t z) {
    size_t n = (size_t)op->a[1], na = (size_t)op->a[3]; double R = op->d[0] > 0 && op->d[0] < 50 ? op->d[0] : 1.25; size_t max = 1 + (size_t)z % (n * na + 2);
    auto tr = ix::BeckeRadialTraits(n, R); auto cg = [](const std::shared_ptr<Base>& p) -> const Base& { return *p; };
    auto& G = g[x % 4]; auto& B2 = b[x % 3]; auto& T = t[x % 2]; auto& U = u[x % 2]; auto& RG = r[x % 2];
    switch (c % NI) {
      case 0: G = ix::SphericalGridFactory::generate_unpruned_grid(ix::RadialQuad::Becke, tr, ix::AngularQuad::LebedevLaikov, na); break;
      case 1: { vector<ix::PruningRegion> v; size_t cut = n > 1 ? 1 + (size_t)z % (n - 1) : 0; if (cut) v.push_back({0, cut, ix::AngularQuad::LebedevLaikov, 6}); v.push_back({cut, n, ix::AngularQuad::LebedevLaikov, na}); G = ix::SphericalGridFactory::generate_pruned_grid(ix::RadialQuad::Becke, tr, v); break; }
      case 2: { if (!bk) bk = std::make_unique<BK>(n, R); if (!ll) ll = std::make_unique<LL>(na); T = std::make_unique<ST>(*bk, *ll, centre(y)); break; }
      case 3: if (RG && fin[x % 2]) { if (!bk) bk = std::make_unique<BK>(n, R); U = std::make_unique<PT>(*bk, *RG, centre(y)); } break;
      case 4: if (auto& S = g[y % 4]) { auto k = cg(S).clone(); G = k; } break;
      case 5: case 6: if (G) G->recenter(centre(y)); break;
      case 7: if (G) for (auto& w : G->weights()) w *= 0.5; break;
      case 8: if (auto& S = g[y % 4]) B2 = std::make_unique<Batcher>(max, S); break;
      case 9: if (auto& S = g[y % 4]) B2 = std::make_unique<Batcher>(max, std::shared_ptr<Base>(cg(S).clone())); break;
      case 10: case 11: if (B2) B2->recenter(centre(y)); break;
      case 12: if (auto& S = b[y % 3]) { auto k = std::make_unique<Batcher>(static_cast<const Batcher&>(*S).clone()); B2 = std::move(k); } break;
      case 13: if (b[y % 3] && x % 3 != y % 3) { B2 = std::make_unique<Batcher>(std::move(*b[y % 3])); b[y % 3].reset(); } break;
      case 14: if (t[y % 2]) { auto k = std::make_unique<ST>(static_cast<const ST&>(*t[y % 2])); T = std::move(k); } break;
      case 15: if (t[y % 2] && x % 2 != y % 2) { T = std::make_unique<ST>(std::move(*t[y % 2])); t[y % 2].reset(); } break;
      case 16: if (T) T->recenter(centre(y)); break;
      case 17: if (t[y % 2]) { B2 = z & 1 ? std::make_unique<Batcher>(max, static_cast<const ST&>(*t[y % 2])) : std::make_unique<Batcher>(ix::make_batcher(max, static_cast<const ST&>(*t[y % 2]))); } break;
      case 18: if (u[y % 2]) { if (z & 1) { U = std::make_unique<PT>(static_cast<const PT&>(*u[y % 2])); } else B2 = std::make_unique<Batcher>(max, static_cast<const PT&>(*u[y % 2])); } break;
      case 19: if (U) U->recenter(centre(y)); break;
      case 20: RG = std::make_unique<RGP>(); fin[x % 2] = false; last[x % 2] = 0; { if (!bk) bk = std::make_unique<BK>(n, R); LL l6(6); RG->add_quad(*bk, 0, l6); } break;
      case 21: if (RG && !fin[x % 2] && last[x % 2] + 1 < n) { if (!bk) bk = std::make_unique<BK>(n, R); if (!ll) ll = std::make_unique<LL>(na); size_t k = last[x % 2] + 1 + (size_t)z % (n - last[x % 2] - 1); RG->add_quad(*bk, k, *ll); last[x % 2] = k; } break;
      case 22: if (RG && bk) { RG->finalize(*bk); fin[x % 2] = true; } break;
      case 23: if (auto& S = r[y % 2]) { if (x % 2 != y % 2) { fin[x % 2] = fin[y % 2]; last[x % 2] = last[y % 2]; } if (z % 3 == 0 || !RG) { auto k = std::make_unique<RGP>(static_cast<const RGP&>(*S)); RG = std::move(k); } else if (z % 3 == 1) *RG = static_cast<const RGP&>(*S); else { RGP k(*S); *RG = std::move(k); } } break;
      case 24: us = std::make_unique<ix::UnprunedSphericalGridSpecification>(ix::RadialQuad::Becke, tr, ix::AngularQuad::LebedevLaikov, na); ps[x % 2] = std::make_unique<ix::PrunedSphericalGridSpecification>(ix::create_pruned_spec(y % 3 == 0 ? ix::PruningScheme::Robust : y % 3 == 1 ? ix::PruningScheme::Treutler : ix::PruningScheme::Unpruned, *us)); break;
      case 25: if (ps[y % 2]) { if (z & 1) G = ix::SphericalGridFactory::generate_grid(static_cast<const ix::PrunedSphericalGridSpecification&>(*ps[y % 2])); else if (ps[x % 2]) *ps[x % 2] = static_cast<const ix::PrunedSphericalGridSpecification&>(*ps[y % 2]); else ps[x % 2] = std::make_unique<ix::PrunedSphericalGridSpecification>(static_cast<const ix::PrunedSphericalGridSpecification&>(*ps[y % 2])); } break;
      case 26: switch (z % 5) { case 0: if (G) said.push_back(cg(G).npts()); break; case 1: if (G) { auto p = cg(G).center(); said.push_back(hc(1, p)); } break; case 2: if (B2) said.push_back(static_cast<const Batcher&>(*B2).npts()); break; case 3: if (T) said.push_back(static_cast<const ST&>(*T).npts()); break; default: if (B2) said.push_back(static_cast<const Batcher&>(*B2).max_batch_size()); } break;
      case 27: if (z & 1) G.reset(); else B2.reset(); break;
      case 28: if (B2) { for (auto& w : B2->weights()) w *= 0.5; } break;
      default: if (bk && (z & 1)) { BK k(static_cast<const BK&>(*bk)); bk = std::make_unique<BK>(std::move(k)); } else if (ll) { LL k(static_cast<const LL&>(*ll)); ll = std::make_unique<LL>(std::move(k)); }
    }
  }
  void run() { auto& v = op->v; for (size_t i = 0; i + 3 < v.size(); i += 4) { instr(v[i], v[i + 1], v[i + 2], v[i + 3]); if (loud) { Sum s; all(s); } } }
};

static const char* differ(const Sum& a, const Sum& b) {
  if (a.g.size() != b.g.size() || a.exact.size() != b.exact.size()) return "another number of objects";
  if (a.exact != b.exact) return "a count, region list, specification, rule or answer";
  for (size_t i = 0; i < a.g.size(); i++) {
    auto& x = a.g[i]; auto& y = b.g[i];
    if (x.n != y.n) return "a grid's size"; if (x.c != y.c) return "a grid's centre"; if (!(FPM & 4) && x.ws != y.ws) return "a grid's weights";
    for (int k = 0; k < 8; k++) { double e = std::fabs(x.m[k] - y.m[k]); if (std::isfinite(e) && e > 1e-9 * std::max(x.scale, y.scale)) return "a grid's points"; }
  }
  return nullptr;
}

static void exec(World& W, const Op& op) {
  string bad; uint64_t who = 0; uint64_t dig = 0;
  uint64_t np = (uint64_t)(op.a[1] * op.a[3]) + 1;
  bool ok = attempt(W, op, [&] {
    bad.clear(); who = 0;
    Sum s[2];
    for (int k = 0; k < 2; k++) { Q q; q.op = &op; q.loud = k == 1; q.run(); q.all(s[k]); }
    for (int k = 0; k < 2; k++) if (s[k].bad) { bad = s[k].bad; who = s[k].who; }
    if (bad.empty()) if (auto* m = differ(s[0], s[1])) { bad = string(m) + " depends on whether objects were read in between"; who = PB(4) | PB(5) | PB(7) | PB(8) | PB(12) | PB(13); }
    dig = s[0].exact.size(); for (auto x : s[0].exact) dig = hm(dig, x);
  }, no_effect, false, 200000000ull + np * 200000ull * (op.v.size() / 4 + 1));
  if (!ok) return;
  rt::shm->stat[rt::S_CHECKS]++; rt::shm->stat[rt::S_P0 + 59]++;
  if (!bad.empty()) report("unread", who, op, bad);
  res(dig);
  post(W, op, {}, nullptr);
}

// ---- objects shared by tasks, never read before
struct Shared { Q q; Op op; bool made = false; uint64_t first[8] = {0}; };
static Shared* SH = nullptr;
static uint64_t total(const Q& q) { Sum s; q.all(s); uint64_t h = 1; if (s.bad) return ~0ull; for (auto x : s.exact) h = hm(h, x); for (auto& g : s.g) { h = hm(h, g.n); for (double x : g.ws) h = hm(h, bitsof(x)); for (double m : g.m) h = hm(h, bitsof(m)); } return h; }
static void share(World& W, const Op& op) {
  if (SH) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
  auto* s = new Shared; s->op = op; s->q.op = &s->op; s->q.loud = false;
  uint64_t np = (uint64_t)(op.a[1] * op.a[3]) + 1;
  if (!attempt(W, op, [&] { s->q.run(); }, nothing, false, 200000000ull + np * 200000ull * (op.v.size() / 4 + 1))) { delete s; return; }
  s->made = true; SH = s;
}
static void look(World& W, const Op& op) { // a task reads what it shares with the others
  if (!SH) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
  const Q& q = SH->q; uint64_t h = 0; int how = (int)(op.a[4] % 5); int64_t x = op.a[5];
  bool ok = attempt(W, op, [&] {
    auto sum = [&](const Base& b) { uint64_t v = b.npts(); for (double w : b.weights()) v = hm(v, bitsof(w)); for (auto& p : b.points()) v = hc(v, p); auto c = b.center(); return hc(v, c); };
    h = 0;
    if (how == 0) { h = total(q); return; }
    for (int i = 0; i < 4; i++) { auto& g = q.g[(i + x) % 4]; if (!g) continue; const Base& b = *g; if (how == 1) h = b.npts(); else if (how == 2) h = sum(*b.clone()); else if (how == 3) h = sum(b); else { auto c = b.center(); h = hc(1, c); } if (h) return; }
    for (int i = 0; i < 3; i++) { auto& p = q.b[(i + x) % 3]; if (!p) continue; const Batcher& b = *p; if (how == 1) h = b.npts() + b.nbatches(); else if (how == 2) h = sum(static_cast<const Batcher&>(b.clone()).quadrature()); else if (how == 3) { if (b.nbatches()) { auto [lo, up, pp, w] = b.at((size_t)x % b.nbatches()); h = hc(hc(pp.size(), lo), up); } } else h = sum(b.quadrature()); if (h) return; }
    for (int i = 0; i < 2; i++) { auto& p = q.t[(i + x) % 2]; if (!p) continue; const ST& b = *p; if (how == 1) h = b.npts(); else if (how == 2) { ST k(b); h = sum(k); } else if (how == 3) { Batcher k(7, b); Sum s; batch_sum(s, k); h = s.bad ? ~0ull : k.nbatches(); } else h = sum(b); if (h) return; }
    for (int i = 0; i < 2; i++) { auto& p = q.r[(i + x) % 2]; if (!p) continue; bool fin = q.fin[(i + x) % 2]; Sum s; if (how & 1) { RGP k(static_cast<const RGP&>(*p)); rgp_sum(s, k, fin); } else rgp_sum(s, *p, fin); h = s.exact.back(); return; }
  }, no_effect, false, 2000000000ull);
  if (!ok) return;
  rt::shm->stat[rt::S_CHECKS]++;
  res(h);
  if (how == 0) { // every complete reading is the same one
    if (h == ~0ull) report("unread", PB(4), op, "an object shared by tasks is not consistent in itself");
    if (!SH->first[0]) SH->first[0] = h; else if (SH->first[0] != h) report("unread", PB(4), op, "two tasks that read the same shared objects got different answers");
  }
}
static void unshare() { if (!SH) return; rt::begin_op(rt::Fault{}, 2000000000ull); SH->q = Q{}; rt::end_op(); delete SH; SH = nullptr; }
}
