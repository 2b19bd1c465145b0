// The simulated system: real IntegratorXX objects driven by a plan of client
// operations, with reference models and oracles.  Compiled with
// -fsanitize=thread so that every memory access of library code reaches rt.cpp.
#include "plan.hpp"
#include <algorithm>
#include <clocale>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <iostream>
#include <limits>
#include <locale>
#include <locale.h>
#include <new>
#include <sstream>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>

#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/generators/radial_factory.hpp>
#include <integratorxx/generators/s2_factory.hpp>
#include <integratorxx/generators/spherical_factory.hpp>

#ifdef SIM_HEADER_ONLY
#include <integratorxx/generators/impl/impl.hpp>
#endif
#ifndef SIM_VARIANT
#define SIM_VARIANT "release"
#endif
#if !defined(INTEGRATORXX_VERBOSITY_LEVEL)
#define INTEGRATORXX_VERBOSITY_LEVEL 0
#endif
const char* sim_variant = SIM_VARIANT;
bool sim_early = false;

namespace ix = IntegratorXX;
using std::string;
using std::vector;

const char* code_name[O_NCODES] = {"nop", "radial", "angular", "primitive", "subquad", "ugrid", "pgrid", "typed-grid", "typed-pruned-grid",
  "uspec", "pspec", "pspec-regions", "generate", "spec-edit", "regions-new", "regions-variadic", "regions-add", "regions-finalize", "product",
  "copy", "move", "clone", "assign", "move-assign", "destroy", "recenter", "edit-weights", "edit-points", "edit-quad", "batch", "batch-at",
  "batch-iterate", "read", "name-radial", "name-angular", "locale", "bad-request", "traits", "log", "drop-handle", "visit", "vector-grow", "other-precision", "nested", "client-throws", "unread", "unread-shared", "unread-look"};

using Base = ix::SphericalQuadratureBase<vector<std::array<double, 3>>, vector<double>>;
using Batcher = ix::SphericalMicroBatcher<vector<std::array<double, 3>>, vector<double>>;
using BK = ix::Becke<double, double>;
using MK = ix::MuraKnowles<double, double>;
using MHL = ix::MurrayHandyLaming<double, double>;
using TA = ix::TreutlerAhlrichs<double, double>;
using AB = ix::AhrensBeylkin<double>;
using DE = ix::Delley<double>;
using LL = ix::LebedevLaikov<double>;
using WO = ix::Womersley<double>;
using pt = std::array<double, 3>;

static const ix::RadialQuad RQ[4] = {ix::RadialQuad::Becke, ix::RadialQuad::MurrayHandyLaming, ix::RadialQuad::MuraKnowles, ix::RadialQuad::TreutlerAhlrichs};
static const ix::AngularQuad AQ[4] = {ix::AngularQuad::AhrensBeylkin, ix::AngularQuad::Delley, ix::AngularQuad::LebedevLaikov, ix::AngularQuad::Womersley};
static int aq_index(ix::AngularQuad a) { for (int i = 0; i < 4; i++) if (AQ[i] == a) return i; return -1; }

static const uint64_t ALLP = ~0ull;
static const double EPS = std::numeric_limits<double>::epsilon();
static inline uint64_t bitsof(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static string sf(const char* f, ...) { char b[900]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ------------------------------------------------------------ request models
struct RadP { int rq = 0; int64_t n = 0; double R = 1, al = -1; };
struct Reg { int64_t st, en; int aq; int64_t na; };

// keys spell doubles as bit patterns: printf("%a") depends on the locale, which the runs change
static unsigned long long KB(double d) { return (unsigned long long)bitsof(d); }
static string kR(const RadP& r) { return sf("R:%d:%lld:%016llx:%016llx", r.rq, (long long)r.n, KB(r.R), KB(r.rq == 3 ? r.al : -1.0)); }
static string kA(int aq, int64_t na) { return sf("A:%d:%lld", aq, (long long)na); }
static string kU(const RadP& r, int aq, int64_t na) { return "U" + kR(r).substr(1) + sf(":%d:%lld", aq, (long long)na); }
static string kP(const RadP& r, const vector<Reg>& g) { string s = "P" + kR(r).substr(1); for (auto& x : g) s += sf(":%lld,%lld,%d,%lld", (long long)x.st, (long long)x.en, x.aq, (long long)x.na); return s; }
static string kS(int scheme, const RadP& r, int aq, int64_t na) { return sf("S:%d:", scheme) + kU(r, aq, na); }
static string kQ(int kind, int64_t n, double a, double b) { return sf("Q:%d:%lld:%016llx:%016llx", kind, (long long)n, KB(a), KB(b)); }

static RadP radp(const Op& o) { RadP r; r.rq = (int)(o.a[0] & 3); r.n = o.a[1]; r.R = o.d[0]; r.al = o.d[1]; return r; }
static std::unique_ptr<ix::RadialTraits> mk_traits(const RadP& r) {
  if (r.rq == 3 && r.al >= 0) return ix::make_radial_traits(RQ[r.rq], (size_t)r.n, r.R, r.al);
  return ix::make_radial_traits(RQ[r.rq], (size_t)r.n, r.R);
}
static vector<Reg> regs_of(const Op& o) { vector<Reg> g; for (size_t i = 0; i + 3 < o.v.size(); i += 4) g.push_back(Reg{o.v[i], o.v[i + 1], (int)o.v[i + 2], o.v[i + 3]}); return g; }
static vector<ix::PruningRegion> ix_regs(const vector<Reg>& g) { vector<ix::PruningRegion> r; for (auto& x : g) r.push_back(ix::PruningRegion{(size_t)x.st, (size_t)x.en, AQ[x.aq & 3], (size_t)x.na}); return r; }

template <class C> static void put(const C& c, vector<double>& o);
template <> void put(const vector<double>& c, vector<double>& o) { o.insert(o.end(), c.begin(), c.end()); }
template <> void put(const vector<pt>& c, vector<double>& o) { for (auto& p : c) { o.push_back(p[0]); o.push_back(p[1]); o.push_back(p[2]); } }
template <class Q> static void qbits(const Q& q, vector<double>& o) { put(q.points(), o); put(q.weights(), o); }
static uint64_t hash_bits(const vector<double>& v) { uint64_t h = v.size() * 0x9E3779B97F4A7C15ull; for (double d : v) { h ^= bitsof(d); h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }

#define PRIM_TYPES(X) \
  X(0, GL, (ix::GaussLegendre<double, double>), ((size_t)n)) \
  X(1, GLO, (ix::GaussLobatto<double, double>), ((size_t)n)) \
  X(2, GC1, (ix::GaussChebyshev1<double, double>), ((size_t)n)) \
  X(3, GC2, (ix::GaussChebyshev2<double, double>), ((size_t)n)) \
  X(4, GC2M, (ix::GaussChebyshev2Modified<double, double>), ((size_t)n)) \
  X(5, GC3, (ix::GaussChebyshev3<double, double>), ((size_t)n)) \
  X(6, UT, (ix::UniformTrapezoid<double, double>), ((size_t)n, da, db)) \
  X(7, QBK, (BK), ((size_t)n, da)) \
  X(8, QMK, (MK), ((size_t)n, da)) \
  X(9, QMHL, (MHL), ((size_t)n, da)) \
  X(10, QTA, (TA), ((size_t)n, da, db)) \
  X(11, QAB, (AB), ((size_t)n)) \
  X(12, QDE, (DE), ((size_t)n)) \
  X(13, QLL, (LL), ((size_t)n)) \
  X(14, QWO, (WO), ((size_t)n))
template <class T> struct unwrap_;
template <class T> struct unwrap_<void(T)> { using type = T; };
#define X(k, nm, ty, ar) using nm##_t = unwrap_<void ty>::type;
PRIM_TYPES(X)
#undef X
template <class T> static T* prim_new(int64_t n, double da, double db);
#define X(k, nm, ty, ar) template <> nm##_t* prim_new<nm##_t>(int64_t n, double da, double db) { (void)da; (void)db; (void)n; return new nm##_t ar; }
PRIM_TYPES(X)
#undef X

// ------------------------------------------------------------------ reference
static void ref_out(int status, const vector<double>& b) {
  rt::shm->reflen = b.size();
  uint64_t h = hash_bits(b);
  memcpy(rt::shm->ref, &h, 8);
  size_t n = std::min<size_t>(b.size(), (sizeof(rt::shm->ref) - 8) / 8);
  if (n) memcpy(rt::shm->ref + 8, b.data(), n * 8);
  rt::shm->status = status;
}
void run_reference(const string& key0) {
  vector<double> b; string key = key0;
  { size_t m = key.find('~'); if (m != string::npos) { rt::fpu_set(atoi(key.c_str() + m + 1)); key.resize(m); } }
  try {
    vector<string> f; { std::stringstream ss(key); string x; while (std::getline(ss, x, ':')) f.push_back(x); }
    auto I = [&](size_t i) { return atoll(f.at(i).c_str()); };
    auto D = [&](size_t i) { uint64_t u = strtoull(f.at(i).c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); return d; };
    auto RP = [&](size_t i) { RadP r; r.rq = (int)I(i); r.n = I(i + 1); r.R = D(i + 2); r.al = D(i + 3); return r; };
    switch (key[0]) {
      case 'R': { RadP r = RP(1); auto q = ix::RadialFactory::generate(RQ[r.rq], *mk_traits(r)); qbits(*q, b); break; }
      case 'A': { auto q = ix::S2Factory::generate(AQ[I(1)], (size_t)I(2)); qbits(*q, b); break; }
      case 'U': { RadP r = RP(1); auto g = ix::SphericalGridFactory::generate_unpruned_grid(RQ[r.rq], *mk_traits(r), AQ[I(5)], (size_t)I(6)); put(g->points(), b); put(g->weights(), b); break; }
      case 'P': {
        RadP r = RP(1); vector<Reg> g;
        for (size_t i = 5; i < f.size(); i++) { long long a, c, e; int d; sscanf(f[i].c_str(), "%lld,%lld,%d,%lld", &a, &c, &d, &e); g.push_back(Reg{a, c, d, e}); }
        auto q = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *mk_traits(r), ix_regs(g)); put(q->points(), b); put(q->weights(), b); break;
      }
      case 'S': {
        RadP r = RP(3); ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *mk_traits(r), AQ[I(7)], (size_t)I(8));
        int sc = (int)I(1);
        auto p = sc == 3 ? ix::robust_psi4_pruning_scheme(u) : sc == 4 ? ix::treutler_pruning_scheme(u)
                 : ix::create_pruned_spec(sc == 0 ? ix::PruningScheme::Unpruned : sc == 1 ? ix::PruningScheme::Robust : ix::PruningScheme::Treutler, u);
        rt::fpu_set(0);
        for (auto& x : p.pruning_regions) { b.push_back((double)x.idx_st); b.push_back((double)x.idx_en); b.push_back(aq_index(x.angular_quad)); b.push_back((double)x.angular_size); }
        break;
      }
      case 'Q': {
        int k = (int)I(1); int64_t n = I(2); double da = D(3), db = D(4);
        switch (k) {
#define X(kk, nm, ty, ar) case kk: { std::unique_ptr<nm##_t> q(prim_new<nm##_t>(n, da, db)); qbits(*q, b); break; }
          PRIM_TYPES(X)
#undef X
        }
        break;
      }
    }
  } catch (...) { rt::fpu_set(0); ref_out(2, {}); return; }
  rt::fpu_set(0); ref_out(1, b);
}

// ---------------------------------------------------------------- grid models
struct GModel { // what a spherical grid must contain
  bool known = true;     // false after the client overwrote points itself
  bool pruned = false;
  vector<pt> ra;         // radial point times angular point, relative to the centre
  vector<double> w;
  pt c{0, 0, 0};
  double err = 0;        // absolute rounding allowance accumulated by recentring
  int moves = 0;         // each move also rounds relative to the point itself
  string key;            // fresh-process reference key ("" if none)
};
using GM = std::shared_ptr<GModel>;

static const RefMap* REFS = nullptr;
static int FPM = 0; // the caller's floating-point mode in this run: a fresh process is asked under the same one
static string inmode(const string& k) { return FPM ? k + sf("~%d", FPM) : k; }
static int PROP = 0;
static bool alike() { return PROP == 24 || PROP == 26 || PROP == 27; } // what counts there is not what a fresh process would say
static bool IN_BAD = false; // only property 24 looks: elsewhere the references are complete
static const Ref* getref(const string& k) { if (alike() && !IN_BAD) return nullptr; auto i = REFS->find(inmode(k)); return i == REFS->end() ? nullptr : &i->second; }

static GM make_model(const RadP& r, const vector<Reg>& regs, bool pruned, const pt& cen) {
  const Ref* rr = getref(kR(r));
  GM m = std::make_shared<GModel>();
  m->c = cen; m->pruned = pruned;
  if (!rr || rr->status != 1) { m->known = false; return m; }
  size_t n = rr->bits.size() / 2;
  for (auto& g : regs) {
    const Ref* aa = getref(kA(g.aq, g.na));
    if (!aa || aa->status != 1) { m->known = false; return m; }
    size_t na = aa->bits.size() / 4;
    for (size_t j = 0; j < na; j++)
      for (int64_t i = g.st; i < std::min<int64_t>(g.en, (int64_t)n); i++) {
        double x = rr->bits[i], wx = rr->bits[n + i];
        m->ra.push_back(pt{x * aa->bits[3 * j], x * aa->bits[3 * j + 1], x * aa->bits[3 * j + 2]});
        m->w.push_back(wx * aa->bits[3 * na + j] * (x * x));
      }
  }
  if (FPM && !(r.R > 1e-20 && r.R < 1e20)) m->known = false; // underflow and overflow depend on the mode
  double cm = std::max({std::fabs(cen[0]), std::fabs(cen[1]), std::fabs(cen[2])});
  m->err = 2 * EPS * cm;
  return m;
}
static bool closed(double a, double b, double tol) { if (FPM && std::fabs(a) > 1e307 && std::fabs(b) > 1e307) return true; /* overflow depends on the rounding mode */ if (a == b || (std::isnan(a) && std::isnan(b))) return true; if (!std::isfinite(a) || !std::isfinite(b)) { return false; } return std::fabs(a - b) <= tol; }
static bool pt_ok(const pt& p, const GModel& m, size_t i) {
  for (int k = 0; k < 3; k++) { double e = m.c[k] + m.ra[i][k]; if (!closed(p[k], e, m.err + (8 + 4 * m.moves) * EPS * (std::fabs(e) + std::fabs(m.ra[i][k])) + 1e-300)) return false; }
  return true;
}
static bool w_ok(double w, double e) { return closed(w, e, 64 * EPS * std::fabs(e) + 1e-300); }

// "" if the grid is what the model says
static string check_grid(const Base& g, const GModel& m, bool& order_only) {
  order_only = false;
  const auto& P = g.points(); const auto& W = g.weights();
  rt::shm->stat[rt::S_CHECKS]++;
  if (P.size() != W.size()) return sf("%zu points but %zu weights", P.size(), W.size());
  if (g.npts() != P.size()) return sf("npts() says %zu, %zu points held", g.npts(), P.size());
  auto c = g.center();
  for (int k = 0; k < 3; k++) if (bitsof(c[k]) != bitsof(m.c[k]) && !(c[k] == m.c[k]) && !((FPM & 4) && std::fabs(c[k]) < 1e-300 && std::fabs(m.c[k]) < 1e-300)) { if (!(std::isnan(c[k]) && std::isnan(m.c[k]))) return sf("centre component %d is %.17g, last set to %.17g", k, c[k], m.c[k]); }
  if (!m.known) return "";
  if (P.size() != m.w.size()) return sf("%zu points, its parts make %zu", P.size(), m.w.size());
  for (size_t i = 0; i < P.size(); i++)
    if (!pt_ok(P[i], m, i) || !w_ok(W[i], m.w[i])) {
      // maybe only the order differs
      string why = sf("point %zu of %zu is (%.17g,%.17g,%.17g) weight %.17g, expected centre+r*a=(%.17g,%.17g,%.17g) weight %.17g (tolerance %.3g)", i, P.size(), P[i][0], P[i][1], P[i][2], W[i],
                      m.c[0] + m.ra[i][0], m.c[1] + m.ra[i][1], m.c[2] + m.ra[i][2], m.w[i], m.err);
      if (P.size() <= 4000) {
        vector<char> used(P.size(), 0); bool all = true;
        for (size_t a = 0; a < P.size() && all; a++) { bool f = false; for (size_t b = 0; b < P.size(); b++) if (!used[b] && pt_ok(P[a], m, b) && w_ok(W[a], m.w[b])) { used[b] = 1; f = true; break; } all = f; }
        if (all) { order_only = true; return ""; }
      }
      return why;
    }
  return "";
}

// ------------------------------------------------------------------- objects
enum Kind { K_Q, K_GRID, K_USPEC, K_PSPEC, K_RGP, K_BATCH, K_PROD, K_TRAITS };
typedef vector<uint64_t> Snap;
struct Obj {
  int kind; bool zombie = false; bool sharedw = false;
  explicit Obj(int k) : kind(k) {}
  virtual ~Obj() {}
  virtual void drop() = 0;                 // destroy the library object (inside an op bracket)
  virtual void snap(Snap&) const = 0;      // everything a client can observe
  virtual const void* group() const { return nullptr; }
  virtual Obj* wrapper() const = 0;        // empty wrapper of same type, model copied
  virtual bool can_copy() const { return true; }
  virtual bool can_move() const { return true; }
  virtual void copy_from(const Obj& o) = 0; // library copy construction (inside bracket)
  virtual void move_from(Obj& o) = 0;
  virtual uint64_t read() const = 0;       // const traversal (inside bracket, no harness allocation)
};
static inline uint64_t hm(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static inline uint64_t hc(uint64_t h, double v) { return hm(h, bitsof(v)); }
static inline uint64_t hc(uint64_t h, const pt& v) { return hc(hc(hc(h, v[0]), v[1]), v[2]); }
template <class Q> static uint64_t read_q(const Q& q) { uint64_t h = 7; const auto& P = q.points(); const auto& W = q.weights(); for (auto& p : P) h = hc(h, p); for (auto& w : W) h = hc(h, w); return hm(h, q.npts()); }
static void sn(Snap& s, const vector<double>& v) { s.push_back(v.size()); for (double d : v) s.push_back(bitsof(d)); }
static void sn(Snap& s, const vector<pt>& v) { s.push_back(v.size()); for (auto& p : v) for (double d : p) s.push_back(bitsof(d)); }
template <class Q> static void snap_q(Snap& s, const Q& q) { sn(s, q.points()); sn(s, q.weights()); s.push_back(q.npts()); }

struct QBase : Obj { // any Quadrature
  string key;  // reference
  int prim = -1; RadP rp; int aq = -1; int64_t na = 0;
  QBase() : Obj(K_Q) {}
  virtual void edit(size_t i, double f) = 0;
  virtual size_t n() const = 0;
  virtual void bits(vector<double>& o) const = 0;
  virtual uint64_t visit() const = 0;
  virtual void oob(bool w, size_t i) const = 0;
};
template <class T> struct QObj : QBase {
  T* p = nullptr;
  void drop() override { delete p; p = nullptr; }
  void snap(Snap& s) const override { snap_q(s, *p); }
  Obj* wrapper() const override { auto* w = new QObj<T>(); w->key = key; w->prim = prim; w->rp = rp; w->aq = aq; w->na = na; return w; }
  void copy_from(const Obj& o) override { p = new T(*static_cast<const QObj<T>&>(o).p); }
  void move_from(Obj& o) override { p = new T(std::move(*static_cast<QObj<T>&>(o).p)); }
  uint64_t read() const override { const T& c = *p; return read_q(c); }
  void edit(size_t i, double f) override { if (p->weights().size()) p->weights()[i % p->weights().size()] *= f; }
  size_t n() const override { return p->npts(); }
  void bits(vector<double>& o) const override { qbits(*p, o); }
  uint64_t visit() const override { const T& c = *p; uint64_t h = 3; for (size_t i = 0; i < c.npts(); i++) { h = hc(h, c.points(i)); h = hc(h, c.weights(i)); h = hc(h, c.points_data()[i]); h = hc(h, c.weights_data()[i]); } ix::Quadrature<T> sl(c); ix::Quadrature<T> sl2(sl); return hm(h, read_q(sl2)); }
  void oob(bool w, size_t i) const override { const T& c = *p; if (w) { volatile uint64_t y = hc(1, c.weights(i)); (void)y; } else { volatile uint64_t y = hc(1, c.points(i)); (void)y; } }
};
template <class B> struct FObj : QBase { // factory made, through its base pointer
  std::shared_ptr<B> p;
  void drop() override { p.reset(); }
  void snap(Snap& s) const override { snap_q(s, *p); }
  Obj* wrapper() const override { auto* w = new FObj<B>(); w->key = key; return w; }
  bool can_copy() const override { return false; }
  bool can_move() const override { return false; }
  void copy_from(const Obj&) override {}
  void move_from(Obj&) override {}
  uint64_t read() const override { const B& c = *p; return read_q(c); }
  void edit(size_t i, double f) override { if (p->weights().size()) p->weights()[i % p->weights().size()] *= f; }
  size_t n() const override { return p->npts(); }
  void bits(vector<double>& o) const override { qbits(*p, o); }
  uint64_t visit() const override { const B& c = *p; uint64_t h = 3; for (size_t i = 0; i < c.npts(); i++) { h = hc(h, c.points(i)); h = hc(h, c.weights(i)); } return h; }
  void oob(bool w, size_t i) const override { const B& c = *p; if (w) { volatile uint64_t y = hc(1, c.weights(i)); (void)y; } else { volatile uint64_t y = hc(1, c.points(i)); (void)y; } }
};
using RFObj = FObj<ix::QuadratureBase<vector<double>, vector<double>>>;
using AFObj = FObj<ix::QuadratureBase<vector<pt>, vector<double>>>;

// typed grids need typed copy / move / make_batcher
struct TOps {
  std::shared_ptr<Base> (*cp)(const Base&);
  std::shared_ptr<Base> (*mv)(Base&);
  void (*mkb)(void* at, size_t, const Base&);
  void (*mkbmv)(void* at, size_t, Base&);
  void (*mkbi)(void* at, size_t, const Base&, const vector<size_t>&, bool); // batches given by the client
  uint64_t (*slice)(const Base&); // copied into its plain Quadrature part
};
template <class T> static const TOps* tops() {
  static const TOps o = {
    [](const Base& b) -> std::shared_ptr<Base> { return std::make_shared<T>(static_cast<const T&>(b)); },
    [](Base& b) -> std::shared_ptr<Base> { return std::make_shared<T>(std::move(static_cast<T&>(b))); },
    [](void* at, size_t m, const Base& b) { const T& t = static_cast<const T&>(b); new (at) Batcher(ix::make_batcher(m, t)); },
    [](void* at, size_t m, Base& b) { new (at) Batcher(m, std::move(static_cast<T&>(b))); },
    [](void* at, size_t m, const Base& b, const vector<size_t>& ix, bool mv) { const T& t = static_cast<const T&>(b); if (mv) { T c(t); new (at) Batcher(m, std::move(c), ix); } else new (at) Batcher(m, t, ix); },
    [](const Base& b) -> uint64_t { const T& t = static_cast<const T&>(b); ix::Quadrature<T> q(t); ix::Quadrature<T> q2(std::move(q)); return read_q(q2); }};
  return &o;
}
struct GObj : Obj {
  std::shared_ptr<Base> g; GM m; const TOps* t = nullptr;
  GObj() : Obj(K_GRID) {}
  void drop() override { g.reset(); }
  void snap(Snap& s) const override { const Base& b = *g; sn(s, b.points()); sn(s, b.weights()); auto c = b.center(); for (double d : c) s.push_back(bitsof(d)); s.push_back(b.npts()); }
  const void* group() const override { return g.get(); }
  Obj* wrapper() const override { auto* w = new GObj(); w->m = std::make_shared<GModel>(*m); w->t = t; return w; }
  bool can_copy() const override { return t != nullptr; }
  bool can_move() const override { return t != nullptr; }
  void copy_from(const Obj& o) override { auto& s = static_cast<const GObj&>(o); g = s.t->cp(*s.g); }
  void move_from(Obj& o) override { auto& s = static_cast<GObj&>(o); g = s.t->mv(*s.g); }
  uint64_t read() const override { const Base& b = *g; uint64_t h = read_q(b); auto c = b.center(); return hc(h, c); }
};
struct USObj : Obj {
  std::unique_ptr<ix::UnprunedSphericalGridSpecification> p; RadP rp; int aq = 0; int64_t na = 0; std::shared_ptr<ix::RadialTraits> expect;
  USObj() : Obj(K_USPEC) {}
  void drop() override { p.reset(); }
  void snap(Snap& s) const override {
    s.push_back((uint64_t)p->radial_quad); s.push_back((uint64_t)p->angular_quad); s.push_back(p->angular_size);
    s.push_back(p->radial_traits ? p->radial_traits->npts() : ~0ull); s.push_back(p->radial_traits ? p->radial_traits->compare(*expect) : 2);
  }
  Obj* wrapper() const override { auto* w = new USObj(); w->rp = rp; w->aq = aq; w->na = na; w->expect = expect; return w; }
  bool can_move() const override { return false; }
  void copy_from(const Obj& o) override { p.reset(new ix::UnprunedSphericalGridSpecification(*static_cast<const USObj&>(o).p)); }
  void move_from(Obj&) override {}
  uint64_t read() const override { return p->radial_traits->npts() * 31 + p->angular_size; }
};
struct PSObj : Obj {
  std::unique_ptr<ix::PrunedSphericalGridSpecification> p; RadP rp; vector<Reg> regs; std::shared_ptr<ix::RadialTraits> expect;
  PSObj() : Obj(K_PSPEC) {}
  void drop() override { p.reset(); }
  void snap(Snap& s) const override {
    s.push_back((uint64_t)p->radial_quad);
    s.push_back(p->radial_traits ? p->radial_traits->npts() : ~0ull); s.push_back(p->radial_traits ? p->radial_traits->compare(*expect) : 2);
    s.push_back(p->pruning_regions.size());
    for (auto& r : p->pruning_regions) { s.push_back(r.idx_st); s.push_back(r.idx_en); s.push_back((uint64_t)r.angular_quad); s.push_back(r.angular_size); }
  }
  Obj* wrapper() const override { auto* w = new PSObj(); w->rp = rp; w->regs = regs; w->expect = expect; return w; }
  bool can_move() const override { return false; }
  void copy_from(const Obj& o) override { p.reset(new ix::PrunedSphericalGridSpecification(*static_cast<const PSObj&>(o).p)); }
  void move_from(Obj&) override {}
  uint64_t read() const override { return p->radial_traits->npts() * 31 + p->pruning_regions.size(); }
};
struct RgpBase : Obj {
  RadP rp; vector<std::pair<int64_t, int64_t>> add; bool fin = false; int typ = 0; bool torn = false;
  RgpBase() : Obj(K_RGP) {}
  virtual void append(int64_t idx, int64_t na) = 0;
  virtual void finalize() = 0;
  virtual void assign_mv(Obj& o) = 0;
  virtual std::shared_ptr<Base> grid(const pt& cen, int how = 0) const = 0;
  virtual void assign_cp(const Obj& o) = 0;
  virtual bool shares(const Obj& o) const = 0;
  virtual const TOps* gtops() const = 0;
  virtual int angq() const = 0;
  virtual string check() const = 0;
};
template <class RQT, class AQT, int AQI> struct RgpObj : RgpBase {
  using RGP = ix::RadialGridPartition<AQT>;
  std::unique_ptr<RQT> rq; std::unique_ptr<RGP> p;
  void drop() override { p.reset(); rq.reset(); }
  int angq() const override { return AQI; }
  // iterate a completed copy; a torn object shows as disagreeing iterators
  string walk(Snap* s) const {
    RGP c(*p);
    auto& idx = c.partition_idx();
    if (!fin) { if (s) { s->push_back(idx.size()); for (auto i : idx) s->push_back(i); } if (idx.empty()) return ""; c.finalize(*rq); }
    const RGP& cc = c;
    auto it = cc.begin(), en = cc.end();
    if (s) { auto& ix2 = c.partition_idx(); s->push_back(ix2.size()); for (auto i : ix2) s->push_back(i); }
    for (;;) {
      bool a = it.idx_it == en.idx_it, b = it.quad_it == en.quad_it;
      if (a != b) return "region starts and region quadratures out of step";
      if (a) break;
      if (s) { auto v = *it; s->push_back(v.first.first); s->push_back(v.first.second); snap_q(*s, v.second); }
      ++it;
    }
    return "";
  }
  void snap(Snap& s) const override { string e = walk(&s); s.push_back(fin); s.push_back(e.size()); }
  string check() const override { // against the model: each appended region, in order, with its rule
    string e = walk(nullptr); if (!e.empty()) return e;
    if (add.empty()) return "";
    RGP c(*p); if (!fin) c.finalize(*rq);
    const RGP& cc = c; size_t k = 0;
    for (auto it = cc.begin(); it != cc.end(); ++it, ++k) {
      if (k >= add.size()) return sf("more than the %zu regions appended", add.size());
      auto v = *it;
      int64_t en = k + 1 < add.size() ? add[k + 1].first : rp.n;
      if ((int64_t)v.first.first != add[k].first || (int64_t)v.first.second != en) return sf("region %zu covers shells [%zu,%zu), expected [%lld,%lld)", k, v.first.first, v.first.second, (long long)add[k].first, (long long)en);
      const Ref* r = getref(kA(AQI, add[k].second));
      if (r && r->status == 1) { vector<double> b; qbits(v.second, b); if (b.size() != r->bits.size() || memcmp(b.data(), r->bits.data(), b.size() * 8)) return sf("region %zu does not hold the %lld-point rule it was given", k, (long long)add[k].second); }
    }
    if (k != add.size()) return sf("%zu regions, %zu were appended", k, add.size());
    return "";
  }
  Obj* wrapper() const override { auto* w = new RgpObj(); w->rp = rp; w->add = add; w->fin = fin; w->typ = typ; return w; }
  void copy_from(const Obj& o) override { auto& s = static_cast<const RgpObj&>(o); auto a = std::make_unique<RQT>(*s.rq); p = std::make_unique<RGP>(*s.p); rq = std::move(a); }
  void move_from(Obj& o) override { auto& s = static_cast<RgpObj&>(o); auto a = std::make_unique<RQT>(*s.rq); p = std::make_unique<RGP>(std::move(*s.p)); rq = std::move(a); }
  void append(int64_t idx, int64_t na) override { p->add_quad(*rq, (size_t)idx, AQT((size_t)na)); }
  void finalize() override { p->finalize(*rq); }
  void assign_mv(Obj& o) override { auto& s = static_cast<RgpObj&>(o); std::unique_ptr<RQT> a(new RQT(*s.rq)); *p = std::move(*s.p); rq = std::move(a); }
  void assign_cp(const Obj& o) override { auto& s = static_cast<const RgpObj&>(o); std::unique_ptr<RQT> a(new RQT(*s.rq)); const RGP& c = *s.p; *p = c; rq = std::move(a); }
  bool shares(const Obj& o) const override { auto& s = static_cast<const RgpObj&>(o); const RGP &c = *p, &d = *s.p; return !c.partition_idx().empty() && c.partition_idx().data() == d.partition_idx().data(); }
  std::shared_ptr<Base> grid(const pt& cen, int how) const override { const RGP& c = *p; const RQT& r = *rq; using SF = ix::SphericalGridFactory;
    if (how == 1) return SF::generate_pruned_grid(r, c);
    if (how == 2) { RQT m1(r); RGP m2(c); return SF::generate_pruned_grid(std::move(m1), std::move(m2)); }
    return std::make_shared<ix::PrunedSphericalQuadrature<RQT, AQT>>(r, c, cen); }
  const TOps* gtops() const override { return tops<ix::PrunedSphericalQuadrature<RQT, AQT>>(); }
  uint64_t read() const override {
    uint64_t h = 5; if (!fin) return h;
    const RGP& c = *p;
    for (auto it = c.begin(); it != c.end(); ++it) { auto v = *it; h = hm(h, v.first.first); h = hm(h, read_q(v.second)); }
    return h;
  }
};
using Rgp0 = RgpObj<BK, LL, 2>;
using Rgp1 = RgpObj<MHL, WO, 3>;
using Rgp2 = RgpObj<TA, DE, 1>;

struct BObj : Obj {
  Batcher* b = nullptr; std::shared_ptr<Base> g; /* observer's handle when shared, else null */ GM m; size_t max = 0;
  alignas(Batcher) unsigned char mem[sizeof(Batcher)];
  BObj() : Obj(K_BATCH) {}
  void drop() override { g.reset(); if (b) b->~Batcher(); b = nullptr; }
  const void* group() const override { return &static_cast<const Batcher&>(*b).quadrature(); }
  void snap(Snap& s) const override {
    const Batcher& c = *b; s.push_back(c.npts()); s.push_back(c.nbatches()); s.push_back(c.max_batch_size());
    sn(s, c.points()); sn(s, c.weights());
    for (size_t i = 0; i < c.nbatches(); i++) { auto [lo, up, p, w] = c.at(i); for (double d : lo) s.push_back(bitsof(d)); for (double d : up) s.push_back(bitsof(d)); sn(s, p); sn(s, w); }
    auto cc = c.quadrature().center(); for (double d : cc) s.push_back(bitsof(d));
  }
  Obj* wrapper() const override { auto* w = new BObj(); w->m = m; w->max = max; return w; }
  void copy_from(const Obj& o) override { auto& s = static_cast<const BObj&>(o); const Batcher& c = *s.b; b = new (mem) Batcher(c); }
  void move_from(Obj& o) override { auto& s = static_cast<BObj&>(o); b = new (mem) Batcher(std::move(*s.b)); }
  uint64_t read() const override {
    uint64_t h = 9; const Batcher& c = *b;
    for (size_t i = 0; i < c.nbatches(); i++) { auto [lo, up, p, w] = c.at(i); h = hc(h, lo); h = hc(h, up); for (auto& x : p) h = hc(h, x); for (auto& x : w) h = hc(h, x); }
    return h;
  }
};
using CombOp = ix::detail::spherical_combine_op<double>;
struct PQ : ix::ProductQuadrature<CombOp, BK, LL> {
  using B = ix::ProductQuadrature<CombOp, BK, LL>;
  using B::B;
  PQ(const PQ&) = default;
  PQ(PQ&&) noexcept = default;
  const auto* q1() const { return quad1_.get(); }
  const auto* q2() const { return quad2_.get(); }
};
struct ProdObj : Obj {
  PQ* p = nullptr;
  ProdObj() : Obj(K_PROD) {}
  void drop() override { delete p; p = nullptr; }
  void snap(Snap& s) const override { s.push_back(!!p->q1()); s.push_back(!!p->q2()); if (p->q1()) snap_q(s, *p->q1()); if (p->q2()) snap_q(s, *p->q2()); }
  Obj* wrapper() const override { return new ProdObj(); }
  void copy_from(const Obj& o) override { p = new PQ(*static_cast<const ProdObj&>(o).p); }
  void move_from(Obj& o) override { p = new PQ(std::move(*static_cast<ProdObj&>(o).p)); }
  uint64_t read() const override { const PQ& c = *p; return read_q(*c.q1()) * 3 + read_q(*c.q2()); }
};
struct TrObj : Obj {
  std::unique_ptr<ix::RadialTraits> p; RadP rp; std::shared_ptr<ix::RadialTraits> expect;
  TrObj() : Obj(K_TRAITS) {}
  void drop() override { p.reset(); }
  void snap(Snap& s) const override { s.push_back(p->npts()); s.push_back(p->compare(*expect)); }
  Obj* wrapper() const override { auto* w = new TrObj(); w->rp = rp; w->expect = expect; return w; }
  void copy_from(const Obj& o) override { p = static_cast<const TrObj&>(o).p->clone(); }
  bool can_move() const override { return false; }
  void move_from(Obj&) override {}
  uint64_t read() const override { return p->npts(); }
};

// --------------------------------------------------------------------- world
struct Slot { Obj* o = nullptr; Snap last; };
struct World { Slot s[40]; World* shared = nullptr; int task = -1; };
static bool LOCALE_CHANGED = false;
static int g_memfd = -1;

[[noreturn]] static void fail(const string& cls, uint64_t props, const Op& op, const string& d) {
  rt::violate(cls, props, sf("op %s: ", code_name[op.code]) + d);
}
// A violation that does not concern the property being checked is only counted.
static bool EXITING = false;              // static destructors are running
static thread_local bool LEAVING = false; // this thread's destructors are running
static bool at_the_edge(const Op& op) { return sim_early || EXITING || LEAVING || op.code == O_NEST; }
static bool concerns(uint64_t props, const Op& op) { return (props & PB(PROP)) || (PROP == 22 && at_the_edge(op)) || (PROP == 25 && (props & (PB(1) | PB(2) | PB(3))) && rt::shm->stat[rt::S_CLIENT]); }
struct Foreign { string cls; };
static void report(const string& cls, uint64_t props, const Op& op, const string& d) {
  if (concerns(props, op)) fail(cls, props, op, d);
  throw Foreign{cls};
}

static Obj* get(World& W, int slot) { if (slot >= 100) return W.shared && slot - 100 < 40 ? W.shared->s[slot - 100].o : nullptr; return slot >= 0 && slot < 40 ? W.s[slot].o : nullptr; }
template <class T> static T* as(World& W, int slot, int kind) { Obj* o = get(W, slot); if (!o || o->kind != kind || o->zombie) return nullptr; return static_cast<T*>(o); }

// state of the process and thread that belongs to the caller
struct Ambient {
  vector<std::pair<const char*, string>> v;
  void take() {
    v.clear(); auto put = [&](const char* n, const string& x) { v.push_back({n, x}); }; logf = rt::shm->stat[rt::S_LOG_FAULTS];
    const char* l = setlocale(LC_ALL, nullptr); put("C locale", l ? l : "");
    put("thread's C locale", sf("%p", (void*)uselocale((locale_t)0)));
    { std::locale g; put("C++ locale", g.name() + (glob == g ? "=" : "#")); glob = g; }
    auto st = [&](const char* n, std::ios& s) { put(n, sf("%x %d %d %d %x %p %p", (unsigned)s.flags(), (int)s.precision(), &s == &std::cout && rt::shm->stat[rt::S_LOG_FAULTS] ? -1 : (int)s.width() /* refused output does not reset it */, (int)(unsigned char)s.fill(), (unsigned)s.exceptions(), (void*)s.rdbuf(), (void*)s.tie())); };
    st("format of cout", std::cout); st("format of cerr", std::cerr); st("format of clog", std::clog); st("format of cin", std::cin);
    put("stdio synchronisation", std::ios_base::sync_with_stdio(true) ? "1" : "0");
    put("new handler", sf("%p", (void*)std::get_new_handler())); put("terminate handler", sf("%p", (void*)std::get_terminate()));
    for (int i = 1; i < 32; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, nullptr, &a) == 0) { static char nm[32][24]; if (!nm[i][0]) snprintf(nm[i], 24, "disposition of signal %d", i); put(nm[i], sf("%p %x", (void*)a.sa_handler, a.sa_flags)); } }
    { sigset_t m; pthread_sigmask(SIG_BLOCK, nullptr, &m); uint64_t w; memcpy(&w, &m, 8); put("signal mask", sf("%llx", (unsigned long long)w)); }
    { mode_t m = umask(022); umask(m); put("umask", sf("%o", (unsigned)m)); }
    { char b[4096]; put("working directory", getcwd(b, sizeof b) ? b : ""); }
    { string e; for (char** p = environ; p && *p; p++) { e += *p; e += '\n'; } put("environment", e); }
    { int fd = fcntl(0, F_DUPFD, 3); if (fd >= 0) close(fd); put("lowest free file descriptor", sf("%d", fd)); }
  }
  std::locale glob; uint64_t logf = 0;
};
static void check_ambient(const Op& op, Ambient& a, const rt::OpStats& st) {
  Ambient b; b.glob = a.glob; b.take();
  if (rt::shm->stat[rt::S_LOG_FAULTS] != a.logf) for (size_t i = 0; i < a.v.size(); i++) if (!strcmp(a.v[i].first, "format of cout")) { auto cut = [](string x) { std::istringstream in(x); string f, p, w, r; in >> f >> p >> w; std::getline(in, r); return f + p + r; }; if (cut(a.v[i].second) == cut(b.v[i].second)) b.v[i].second = a.v[i].second; }
  rt::shm->stat[rt::S_CHECKS]++;
  if (st.fp_is != st.fp_was) report("ambient:floating-point", PB(21), op, sf("the floating-point control state was %08x before the call and %08x after it", st.fp_was, st.fp_is));
  for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) if (a.v[i].second != b.v[i].second) report("ambient:changed", PB(21), op, string(a.v[i].first) + ": \"" + a.v[i].second.substr(0, 150) + "\" before the call, \"" + b.v[i].second.substr(0, 150) + "\" after it");
  static const char* W[] = {"sets the process-wide locale", "draws from or seeds the process-wide random numbers", "installs a signal handler", "changes the environment", "changes the working directory", "changes the umask", "installs a handler", "writes, removes or renames files or starts programs"};
  for (int i = 0; i < 8; i++) if (st.amb >> i & 1) report("ambient:touched", PB(21), op, sf("the call %s", W[i]));
}
static void destroy_obj(Obj* o) {
  Ambient am; if (PROP == 21) { am.take(); am.take(); }
  rt::begin_op(rt::Fault{}, 200000000); o->drop(); auto st = rt::end_op(); delete o;
  if (PROP == 21) { Op op; op.code = O_DESTROY; check_ambient(op, am, st); }
}

static void set_slot(World& W, int slot, Obj* o) {
  if (W.s[slot].o) destroy_obj(W.s[slot].o);
  W.s[slot].o = o; W.s[slot].last.clear();
  if (o && !o->zombie) o->snap(W.s[slot].last);
}
static void resnap(World& W, const void* group) { for (auto& x : W.s) if (x.o && !x.o->zombie && group && x.o->group() == group) { x.last.clear(); x.o->snap(x.last); } }

// a grid that was handed over by move is empty for everything that shared it
static void zombify(World& W, const void* group, Obj* but) { for (auto& x : W.s) if (x.o && x.o != but && !x.o->zombie && group && x.o->group() == group) x.o->zombie = true; }

static const char* kname(int k) { static const char* n[] = {"quadrature", "grid", "unpruned spec", "pruned spec", "region list", "batcher", "product", "traits"}; return n[k]; }

// every object not concerned by the operation must be exactly as before
static void check_world(World& W, const Op& op, const string& cls, uint64_t props, std::initializer_list<int> except, const void* group) {
  Snap s;
  for (int i = 0; i < 40; i++) {
    auto& x = W.s[i];
    if (!x.o || x.o->zombie) continue;
    bool ex = false; for (int e : except) ex |= e == i;
    if (ex || (group && x.o->group() == group)) continue;
    s.clear(); x.o->snap(s);
    rt::shm->stat[rt::S_CHECKS]++;
    if (s != x.last) {
      size_t k = 0; while (k < s.size() && k < x.last.size() && s[k] == x.last[k]) k++;
      report(cls, props, op, sf("%s in slot %d changed (state word %zu of %zu)", kname(x.o->kind), i, k, s.size()));
    }
  }
}

// ----------------------------------------------------------------- attempts
struct Res { bool ok = false; int exc = 0; /*1 bad_alloc 2 std 3 other*/ string what; rt::OpStats st{}; };

// An exception of the client's own, thrown from a call of the library into client code.
struct Thr { bool on = false, thrown = false, same = false, log = false; int n = 0, calls = 0, kind = 0, id = 0; };
static Thr* THR = new Thr[8];
struct CE_rt : std::runtime_error { int id; explicit CE_rt(int i) : std::runtime_error("client"), id(i) {} };
struct CE_oor : std::out_of_range { int id; explicit CE_oor(int i) : std::out_of_range("client"), id(i) {} };
struct CE_ba : std::bad_alloc { int id; explicit CE_ba(int i) : id(i) {} };
struct CE_bc : std::bad_cast { int id; explicit CE_bc(int i) : id(i) {} };
struct CE_any { int id; };
static const int NCE = 6;
static void client_point() {
  Thr& T = THR[rt::task_id()];
  if (!T.on || T.thrown) return;
  if (++T.calls != T.n) return;
  T.thrown = true; rt::shm->stat[rt::S_CLIENT]++;
  switch (T.kind) { case 0: throw CE_rt(T.id); case 1: throw CE_oor(T.id); case 2: throw CE_ba(T.id); case 3: throw CE_bc(T.id); case 4: throw CE_any{T.id}; default: throw T.id; }
}

static struct { uint64_t peak, stack, steps; bool known; } MEAS;
static unsigned STACK_AT = 0; // where on the stack calls find themselves
template <class F> static __attribute__((noinline)) Res attempt1(const Op& op, F& f, const rt::Fault& flt, uint64_t budget) {
  volatile char* pad = (volatile char*)__builtin_alloca(16 * (1 + STACK_AT)); pad[0] = 0;
  Res r; Ambient am; if (PROP == 21) { am.take(); am.take(); }
  rt::begin_op(flt, budget);
  try { f(); r.st = rt::end_op(); r.ok = true; }
  catch (const std::bad_alloc& e) { r.st = rt::end_op(); r.exc = 1; r.what = e.what(); }
  catch (const std::exception& e) { r.st = rt::end_op(); r.exc = 2; r.what = e.what(); }
  catch (...) { r.st = rt::end_op(); r.exc = 3; }
  rt::shm->stat[rt::S_OPS]++; rt::shm->stat[rt::S_STEPS] += r.st.steps;
  rt::shm->stat[r.ok ? rt::S_OPS_OK : rt::S_OPS_FAILED]++;
  if (r.st.steps > rt::shm->opsteps_max) rt::shm->opsteps_max = r.st.steps;
  if (PROP == 21) check_ambient(op, am, r.st);
  MEAS.peak = std::max(MEAS.peak, r.st.peak); MEAS.stack = std::max(MEAS.stack, r.st.stack); MEAS.steps = std::max(MEAS.steps, r.st.steps);
  if (r.exc == 3 && !THR[rt::task_id()].thrown) report("non-standard-exception", ALLP, op, "an exception not derived from std::exception left the call");
  return r;
}
static void res(uint64_t v) { int64_t i = rt::shm->cur_op[rt::task_id()]; if (i >= 0 && i < 512) rt::shm->opdig[i] = hm(rt::shm->opdig[i], v); rt::mix(v); }
static int g_skip = 0;
static const uint64_t BUD = 400000000ull;
static string g_key; // reference key of the request being served, for messages

// Runs body under the op's fault plan.  `body` must assign its results only on
// success; `undo` destroys what a successful body made.  Returns true if the
// effect took place.
template <class F, class U> static bool attempt(World& W, const Op& op, F body, U undo, bool may_refuse = false, uint64_t budget = BUD,
                                                std::initializer_list<int> except = {}, const void* group = nullptr) {
  auto failed_ok = [&](const Res& r) {
    rt::mix(0xF000 + r.exc); rt::mix(r.st.fired);
    if ((PROP == 27 ? r.exc == 1 : !alike()) && r.st.fired == 0 && !may_refuse && !((op.code == O_BATCH || op.code == O_MINI || op.code == O_NEST) && r.exc == 2 && rt::shm->stat[rt::S_LOG_FAULTS]))
      report("unexpected-exception", ALLP, op, "valid request, nothing injected, but it threw: " + r.what + (g_key.empty() ? "" : " (request " + g_key + ")"));
    check_world(W, op, "changed-by-failed-call", PB(2) | PB(3) | PB(5) | PB(11) | PB(9) | PB(13), except, group);
  };
  if (!std::is_same<U, void (*)()>::value && op.rep > 0 && op.f.kind == rt::F_NONE) { // completed calls must not lose memory
    uint64_t live[4]; int k = 0;
    for (; k < 4; k++) {
      Res r = attempt1(op, body, rt::Fault{}, budget);
      if (!r.ok) { failed_ok(r); return false; }
      rt::begin_op(rt::Fault{}, budget); undo(); rt::end_op();
      live[k] = rt::live_bytes();
    }
    rt::shm->stat[rt::S_P0 + 0]++;
    if (live[1] > live[0] && live[2] > live[1] && live[3] > live[2]) report("leak:completed-call", PB(2) | PB(11) | PB(12), op, sf("memory in use grows by %llu bytes with each build-and-destroy", (unsigned long long)(live[3] - live[2])));
  }
  if (op.sweep) {
    uint64_t stride = op.sweep;
    for (uint64_t k = 1; k < 5000; k += stride + (k > 150 ? k / 32 : 0)) {
      rt::Fault f = op.f; f.kind = op.f.kind == rt::F_FROM ? rt::F_FROM : rt::F_NTH; f.a = k;
      uint64_t l0 = rt::live_bytes();
      Res r = attempt1(op, body, f, budget);
      if (r.ok) {
        rt::shm->stat[rt::S_P0 + 1]++;
        if (r.st.fired == 0) { rt::mix(k); return true; }
        rt::shm->stat[rt::S_P0 + 2]++;
        return true; // survived an injected failure: the caller's oracles judge the result
      }
      uint64_t l1 = rt::live_bytes();
      failed_ok(r);
      if (l1 > l0) {
        for (int again = 0; again < 10; again++) { // caches stop growing, leaks do not
          Res r2 = attempt1(op, body, f, budget); uint64_t l2 = rt::live_bytes();
          if (r2.ok) return true;
          failed_ok(r2);
          if (l2 <= l1) break;
          if (again == 9) report("leak:failed-call", PB(2) | PB(3) | PB(11), op, sf("each failing call (request %llu refused) loses %llu bytes", (unsigned long long)k, (unsigned long long)(l2 - l1)));
          l1 = l2;
        }
      }
    }
    return false;
  }
  uint64_t l0 = rt::live_bytes();
  Res r = attempt1(op, body, op.f, budget);
  rt::mix(r.ok); rt::mix(r.st.allocs);
  if (r.ok) return true;
  uint64_t l1 = rt::live_bytes();
  failed_ok(r);
  bool consumes = op.code == O_MOVE || (op.code == O_BATCH && op.a[0] == 1);
  if (l1 > l0 && W.task < 0 && !consumes) for (int again = 0; again < 10; again++) {
    Res r2 = attempt1(op, body, op.f, budget); uint64_t l2 = rt::live_bytes();
    if (r2.ok) return true;
    failed_ok(r2);
    if (l2 <= l1) break;
    if (again == 9) report("leak:failed-call", PB(2) | PB(3) | PB(11), op, sf("each failing call loses %llu bytes", (unsigned long long)(l2 - l1)));
    l1 = l2;
  }
  return false;
}
static void nothing() {} // the body's effect stays: it cannot be repeated for the leak check
static const auto no_effect = [] {}; // the body has no effect to undo

// properties whose statement includes "later/other requests still give the right result"
static const uint64_t P_RESULT = PB(1) | PB(2) | PB(3) | PB(4) | PB(9) | PB(10) | PB(11) | PB(12);
static const uint64_t P_MODEL = PB(7) | PB(2) | PB(3) | PB(4) | PB(12);

static void check_ref(const Op& op, const string& key, const vector<double>& b) {
  const Ref* r = getref(key);
  rt::shm->stat[rt::S_CHECKS]++;
  uint64_t h = hash_bits(b); rt::mix(h);
  if (!r || r->status == 0 || r->status == 3) return;
  if (r->status == 2) { report("differs-from-fresh-process", P_RESULT, op, "succeeds here, but the same request first in a fresh process is refused (" + key + ")"); return; }
  rt::shm->stat[rt::S_P0 + 3]++;
  if (r->n != b.size()) report("differs-from-fresh-process", P_RESULT, op, sf("request %s: %zu values here, %zu in a fresh process", key.c_str(), b.size(), (size_t)r->n));
  if (r->hash != h) {
    size_t k = 0; if (r->bits.size() == b.size()) while (k < b.size() && bitsof(b[k]) == bitsof(r->bits[k])) k++;
    report("differs-from-fresh-process", P_RESULT, op, sf("request %s: value %zu of %zu is %.17g here, %.17g in a fresh process", key.c_str(), k, b.size(), k < b.size() ? b[k] : 0.0, k < r->bits.size() ? r->bits[k] : 0.0));
  }
}
static bool part_ok(const string& key) { const Ref* r = getref(key); return r && r->status == 1; }
static bool parts_ok(const RadP& r, const vector<Reg>& g) {
  if (r.n < 1 || g.empty() || !part_ok(kR(r))) return false;
  for (auto& x : g) if (x.aq != g[0].aq || (x.st < x.en && !part_ok(kA(x.aq, x.na)))) return false;
  return true;
}
static bool ref_unknown(const string& key) { const Ref* r = getref(key); return !r || r->status == 0 || r->status == 3; }
static bool ref_throws(const string& key) { const Ref* r = getref(key); return r && r->status == 2; }

static void check_model(const Op& op, const Base& g, const GModel& m) {
  bool oo; string e = check_grid(g, m, oo);
  if (!e.empty()) report(m.pruned ? "pruned-grid-is-not-its-parts" : "grid-is-not-its-parts", P_MODEL | (m.pruned ? PB(13) : 0), op, e);
}
static void new_grid(World& W, const Op& op, GObj* w) {
  check_model(op, *w->g, *w->m);
  vector<double> b; put(w->g->points(), b); put(w->g->weights(), b);
  bool zero = w->m->c[0] == 0 && w->m->c[1] == 0 && w->m->c[2] == 0;
  if (zero && !w->m->key.empty()) check_ref(op, w->m->key, b); else rt::mix(hash_bits(b));
  set_slot(W, op.dst, w);
}

// ------------------------------------------------------------ batcher oracles
struct Q4 { uint64_t b[4]; uint32_t i; bool operator<(const Q4& o) const { for (int k = 0; k < 4; k++) if (b[k] != o.b[k]) return b[k] < o.b[k]; return false; } bool same(const Q4& o) const { return !memcmp(b, o.b, 32); } };
static void quads(const vector<pt>& P, const vector<double>& W, vector<Q4>& o) { o.clear(); for (size_t i = 0; i < P.size(); i++) { Q4 q; for (int k = 0; k < 3; k++) q.b[k] = bitsof(P[i][k]); q.b[3] = i < W.size() ? bitsof(W[i]) : 0; q.i = (uint32_t)i; o.push_back(q); } std::sort(o.begin(), o.end()); }
static const uint64_t P_BATCH = PB(5) | PB(9) | PB(4) | PB(2);

static void check_batches(const Op& op, const Batcher& c, size_t max) {
  rt::shm->stat[rt::S_CHECKS]++;
  const auto& P = c.points(); const auto& Wt = c.weights();
  size_t nb = c.nbatches(), pos = 0;
  if (P.size() != Wt.size() || c.npts() != P.size()) report("batch:counts", P_BATCH, op, sf("npts %zu, %zu points, %zu weights", c.npts(), P.size(), Wt.size()));
  if (c.max_batch_size() != max) report("batch:max", P_BATCH, op, sf("reports maximum %zu, asked for %zu", c.max_batch_size(), max));
  if (nb > P.size()) report("batch:count", P_BATCH, op, sf("%zu batches for %zu points", nb, P.size()));
  for (size_t i = 0; i < nb; i++) {
    auto [lo, up, p, w] = c.at(i);
    if (p.empty()) report("batch:empty", P_BATCH, op, sf("batch %zu of %zu is empty", i, nb));
    if (p.size() > max) report("batch:oversize", P_BATCH | PB(6), op, sf("batch %zu of %zu holds %zu points, maximum %zu", i, nb, p.size(), max));
    if (p.size() != w.size()) report("batch:pairs", P_BATCH, op, sf("batch %zu: %zu points %zu weights", i, p.size(), w.size()));
    bool nan = false; pt l = p[0], u = p[0];
    for (auto& x : p) for (int k = 0; k < 3; k++) { nan |= std::isnan(x[k]); l[k] = std::min(l[k], x[k]); u[k] = std::max(u[k], x[k]); }
    if (!nan && !(FPM & 4)) for (int k = 0; k < 3; k++) if (l[k] != lo[k] || u[k] != up[k]) report("batch:box", P_BATCH, op, sf("batch %zu: box [%.17g,%.17g] on axis %d, points span [%.17g,%.17g]", i, lo[k], up[k], k, l[k], u[k]));
    for (size_t k = 0; k < p.size(); k++, pos++) {
      if (pos >= P.size()) report("batch:extra", P_BATCH, op, "batches hold more points than the grid");
      if (memcmp(&p[k], &P[pos], 24) || bitsof(w[k]) != bitsof(Wt[pos])) report("batch:content", P_BATCH, op, sf("batch %zu entry %zu is not grid point %zu with its weight", i, k, pos));
    }
  }
  if (pos != P.size()) report("batch:missing", P_BATCH, op, sf("batches hold %zu of %zu points", pos, P.size()));
}
// the grid's content must be what it was, only reordered; carry the model along
static void check_reorder(const Op& op, const vector<pt>& P0, const vector<double>& W0, const Base& g, GModel& m) {
  const auto& P1 = g.points(); const auto& W1 = g.weights();
  if (P1.size() != P0.size() || W1.size() != W0.size()) { report("batch:grid-size", P_BATCH, op, sf("grid had %zu points, has %zu", P0.size(), P1.size())); }
  vector<Q4> a, b; quads(P0, W0, a); quads(P1, W1, b);
  for (size_t i = 0; i < a.size(); i++) if (!a[i].same(b[i])) report("batch:points-lost", P_BATCH, op, sf("after batching, the grid no longer holds the same (point,weight) pairs (first difference at sorted position %zu of %zu)", i, a.size()));
  if (m.known && m.w.size() == a.size()) {
    vector<pt> ra(m.ra.size()); vector<double> w(m.w.size());
    for (size_t i = 0; i < a.size(); i++) { ra[b[i].i] = m.ra[a[i].i]; w[b[i].i] = m.w[a[i].i]; }
    m.ra.swap(ra); m.w.swap(w);
  }
}

// ------------------------------------------- client code called by the library
// Every callback of the library into client code (copying and asking a client's
// own radial parameters, a client's combine operation, the client's stream
// buffer) may itself use the library: another request, served in the middle of
// the one that is running.
struct Nest { bool on = false, busy = false, have = false; RadP r; int aq = 0; int64_t na = 0; int what = 0, calls = 0, bad = 0; uint64_t want = 0; string key; };
static Nest* NEST = new Nest[8];
static void nest_set(const Op& op) {
  Nest& N = NEST[rt::task_id()]; N = Nest();
  if (op.v.size() < 4) return;
  N.r = RadP{(int)(op.v[0] & 3), op.v[1], op.d[2], op.d[3]}; N.aq = (int)(op.v[2] & 3); N.na = op.v[3]; N.what = (int)(op.a[5] & 7); N.key = kU(N.r, N.aq, N.na);
  const Ref* f = getref(N.key); if (!f || f->status != 1) return;
  N.on = N.have = true; N.want = f->hash;
}
static void nest_call() {
  Nest& N = NEST[rt::task_id()];
  if (!N.on || N.busy || N.calls >= 5) return;
  struct Done { Nest& n; ~Done() { n.busy = false; } } done{N};
  N.busy = true; N.calls++; rt::shm->stat[rt::S_P0 + 8]++;
  if (N.what & 1) { if (ix::radial_from_string("mhl") != ix::RadialQuad::MurrayHandyLaming || ix::angular_from_string("WOMERSLEY") != ix::AngularQuad::Womersley) N.bad |= 1; }
  auto t = mk_traits(N.r);
  auto g = ix::SphericalGridFactory::generate_unpruned_grid(RQ[N.r.rq], *t, AQ[N.aq], (size_t)N.na);
  uint64_t h; { vector<double> b; put(g->points(), b); put(g->weights(), b); h = hash_bits(b); }
  if (h != N.want) N.bad |= 2;
  if (N.what & 2) {
    ix::UnprunedSphericalGridSpecification u(RQ[N.r.rq], *t, AQ[N.aq], (size_t)N.na);
    auto q = ix::SphericalGridFactory::generate_grid(ix::create_pruned_spec(ix::PruningScheme::Unpruned, u));
    vector<double> b; put(q->points(), b); put(q->weights(), b); if (hash_bits(b) != N.want) N.bad |= 4;
  }
  if (N.what & 4) { Batcher c(7, g); size_t n = 0; for (size_t i = 0; i < c.nbatches(); i++) n += std::get<2>(c.at(i)).size(); if (n != (size_t)(N.r.n * N.na)) N.bad |= 8; }
}
static void nest_check(const Op& op) {
  Nest& N = NEST[rt::task_id()]; if (!N.bad) return;
  int b = N.bad; N.bad = 0;
  report("nested-call-wrong", PB(22), op, sf("a call made by client code while the library was calling it gave the wrong %s (request %s)", b & 1 ? "name" : b & 2 ? "grid" : b & 4 ? "pruned grid" : "batches", N.key.c_str()));
}
struct NestTraits : ix::BeckeRadialTraits {
  using ix::BeckeRadialTraits::BeckeRadialTraits;
  std::unique_ptr<ix::RadialTraits> clone() const override { nest_call(); return std::make_unique<NestTraits>(*this); }
  size_t npts() const noexcept override { try { nest_call(); } catch (...) { } return ix::BeckeRadialTraits::npts(); }
  bool compare(const ix::RadialTraits& o) const noexcept override { try { nest_call(); } catch (...) { } return ix::BeckeRadialTraits::compare(o); }
};
// parameters, a rule, a combine operation and a grid of a client whose code may throw
struct ThTraits : ix::BeckeRadialTraits { // known to the library's factory
  using ix::BeckeRadialTraits::BeckeRadialTraits;
  std::unique_ptr<ix::RadialTraits> clone() const override { client_point(); auto p = std::make_unique<ThTraits>(*this); client_point(); return p; }
};
struct ThOwn : ix::RadialTraits { // unknown to it
  size_t n; double R; ThOwn(size_t n_, double R_) : n(n_), R(R_) {}
  std::unique_ptr<ix::RadialTraits> clone() const override { client_point(); return std::make_unique<ThOwn>(*this); }
  size_t npts() const override { client_point(); return n; }
  bool compare(const ix::RadialTraits& o) const noexcept override { auto* p = dynamic_cast<const ThOwn*>(&o); return p && p->n == n && p->R == R; }
};
struct ThMap : ix::BeckeRadialTraits { // a transformation
  using ix::BeckeRadialTraits::BeckeRadialTraits;
  size_t npts() const noexcept override { return ix::BeckeRadialTraits::npts(); }
  template <class T> auto radial_transform(T x) const { client_point(); return ix::BeckeRadialTraits::radial_transform(x); }
  template <class T> auto radial_jacobian(T x) const { client_point(); return ix::BeckeRadialTraits::radial_jacobian(x); }
};
using ThRule = ix::RadialTransformQuadrature<ix::GaussChebyshev2<double, double>, ThMap>;
struct ThOp {
  pt operator()(const double& r, const pt& a) { client_point(); return {r * a[0], r * a[1], r * a[2]}; }
  double operator()(const double& x, const double& y) { client_point(); return x * y; }
};
struct ThQ;
namespace IntegratorXX {
template <> struct quadrature_traits<ThQ> {
  using point_type = double; using weight_type = double; using point_container = std::vector<double>; using weight_container = std::vector<double>;
  static constexpr bool bound_inclusive = false;
  static std::tuple<point_container, weight_container> generate(size_t n, double R) {
    client_point(); BK b(n, R); point_container p; weight_container w;
    for (size_t i = 0; i < n; i++) { client_point(); p.push_back(b.points()[i]); w.push_back(b.weights()[i]); }
    return {p, w};
  }
};
}
struct ThQ : ix::Quadrature<ThQ> { using base = ix::Quadrature<ThQ>; ThQ(size_t n, double R) : base(n, R) {} };
struct ThGrid : ix::SphericalQuadrature<BK, LL> {
  using ix::SphericalQuadrature<BK, LL>::SphericalQuadrature;
  std::shared_ptr<Base> clone() const override { client_point(); auto p = std::make_shared<ThGrid>(*this); client_point(); return p; }
};
struct NestOp {
  pt operator()(const double& r, const pt& a) { nest_call(); return {r * a[0], r * a[1], r * a[2]}; }
  double operator()(const double& x, const double& y) { return x * y; }
};

// ------------------------------------------------------------ log stream seam
struct LogBuf : std::streambuf {
  bool nest = false;
  void callback() { if (THR[rt::task_id()].log) client_point(); if (nest) try { nest_call(); } catch (...) { rt::shm->stat[rt::S_LOG_FAULTS]++; throw; } }
  long budget = -1; bool fails = false; bool throws = false; uint64_t n = 0; uint64_t stall = 0;
  bool gone() { if (stall) rt::advance(stall); if (budget >= 0 && (long)n >= budget) { rt::shm->stat[rt::S_LOG_FAULTS]++; if (throws) throw std::runtime_error("simulated stream failure"); return true; } return false; }
  int_type overflow(int_type c) override { callback(); if (gone()) return traits_type::eof(); n++; rt::shm->stat[rt::S_LOG_BYTES]++; return c == traits_type::eof() ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize k) override { callback(); std::streamsize d = 0; while (d < k) { if (gone()) return d; n++; d++; rt::shm->stat[rt::S_LOG_BYTES]++; } return d; }
  int sync() override { return gone() ? -1 : 0; }
};
static LogBuf* LOGB = nullptr;
static void log_state(uint64_t o[4]) { o[0] = (uint64_t)std::cout.flags(); o[1] = (uint64_t)std::cout.precision(); o[2] = (uint64_t)(unsigned char)std::cout.fill(); o[3] = 0; }

// ------------------------------------------------------------------- names
static int expect_name(const string& s, bool ang) {
  string u; for (unsigned char c : s) u += (char)(c >= 'a' && c <= 'z' ? c - 32 : c);
  struct N { const char* n; int v; };
  static const N R[] = {{"BECKE", 0}, {"MURRAYHANDYLAMING", 1}, {"MHL", 1}, {"MURAKNOWLES", 2}, {"MK", 2}, {"TREUTLERAHLRICHS", 3}, {"TA", 3}};
  static const N A[] = {{"AHRENSBEYLKIN", 0}, {"AB", 0}, {"DELLEY", 1}, {"LEBEDEVLAIKOV", 2}, {"LEBEDEV", 2}, {"LL", 2}, {"WOMERSLEY", 3}};
  if (!ang) { for (auto& n : R) if (u == n.n) return n.v; } else { for (auto& n : A) if (u == n.n) return n.v; }
  return -1;
}

static void post(World& W, const Op& op, std::initializer_list<int> except, const void* group);
// ------------------------------------------- the templates at other precisions
// One grid's whole life in single or extended precision: made, moved about,
// cloned, edited, cut into batches; checked against its own parts.
template <class F> static void mini(World& W, const Op& op) {
  using B = ix::Becke<F, F>; using L = ix::LebedevLaikov<F>; using P3 = std::array<F, 3>;
  using G = ix::SphericalQuadrature<B, L>; using PG = ix::PrunedSphericalQuadrature<B, L>; using RGP = ix::RadialGridPartition<L>;
  using BS = ix::SphericalQuadratureBase<vector<P3>, vector<F>>; using BT = ix::SphericalMicroBatcher<vector<P3>, vector<F>>;
  const F eps = std::numeric_limits<F>::epsilon();
  size_t n = (size_t)std::max<int64_t>(1, op.a[1]), na = (size_t)op.a[3], max = (size_t)std::max<int64_t>(1, op.a[4]); int64_t how = op.a[5];
  bool pruned = (how & 1) && n >= 2;
  const char* bad = nullptr; uint64_t who = 0; size_t nbat = 0; F first = 0;
  auto body = [&] {
    bad = nullptr; nbat = 0;
    auto no = [&](uint64_t p, const char* m) { if (!bad) { bad = m; who = p; } };
    P3 c0{(F)op.d[0], (F)op.d[1], (F)op.d[2]}, c1{(F)op.d[2], (F)(op.d[0] + op.d[3]), (F)op.d[1]};
    B b(n, (F)1.3); L l(na), l2(6);
    std::shared_ptr<BS> g;
    struct E { P3 p; F w; }; vector<E> exp;
    auto part = [&](const L& q, size_t st, size_t en) { for (size_t j = 0; j < q.npts(); j++) for (size_t i = st; i < en; i++) { F r = b.points()[i]; auto& a = q.points()[j]; exp.push_back(E{P3{r * a[0], r * a[1], r * a[2]}, b.weights()[i] * q.weights()[j] * r * r}); } };
    if (pruned) { size_t cut = 1 + n / 2 > n - 1 ? n - 1 : 1 + n / 2; if (cut == 0) cut = 1; RGP p; p.add_quad(b, 0, l2); p.add_quad(b, cut, l); p.finalize(b); g = std::make_shared<PG>(b, p, c0); part(l2, 0, cut); part(l, cut, n); }
    else { g = std::make_shared<G>(b, l, c0); part(l, 0, n); }
    F mag = 0; for (int k = 0; k < 3; k++) mag = std::max({mag, std::fabs(c0[k]), std::fabs(c1[k])});
    auto model = [&](const BS& q, const P3& c, int moves) {
      if (q.npts() != exp.size() || q.points().size() != exp.size() || q.weights().size() != exp.size()) return no(PB(7), "a grid has another number of points than its parts make");
      if (q.center() != c) no(PB(7), "a grid's centre is not what it was last set to");
      for (size_t i = 0; i < exp.size(); i++) {
        for (int k = 0; k < 3; k++) { F e = c[k] + exp[i].p[k]; if (!(std::fabs(q.points()[i][k] - e) <= eps * (F)(4 + 8 * moves) * (mag + std::fabs(exp[i].p[k])) + (F)1e-37)) no(PB(7), "a grid's point is not its centre plus its radial point times its angular point"); }
        if (!(std::fabs(q.weights()[i] - exp[i].w) <= 64 * eps * std::fabs(exp[i].w) + (F)1e-37)) no(PB(7), "a grid's weight is not the product of its parts' weights and the radius squared");
      }
    };
    model(*g, c0, 0);
    auto w0 = g->weights(); auto p0 = g->points();
    auto cl = static_cast<const BS&>(*g).clone();
    if (!cl || cl.get() == g.get() || cl->points() != p0 || cl->weights() != w0 || cl->center() != g->center()) no(PB(8), "a clone differs from its source");
    g->recenter(c1); model(*g, c1, 1); if (g->weights() != w0) no(PB(7), "recentring changed weights");
    if (cl && (cl->points() != p0 || cl->center() != c0)) no(PB(8), "recentring a grid moved its clone");
    if (how & 2) { g->recenter(c0); model(*g, c0, 2); }
    if (how & 4) for (auto& x : g->points()) x = c1;              // all in one place
    else if (how & 8) for (size_t i = 0; i < exp.size(); i++) for (int k = 0; k < 3; k++) { F x = c1[k]; for (size_t u = (i * (k + 3)) % 4; u; u--) x = std::nextafter(x, (F)1e30); g->points()[i][k] = x; } // as close as numbers get
    auto sorted = [](const BS& q) { vector<std::array<F, 4>> v; for (size_t i = 0; i < q.points().size(); i++) v.push_back({q.points()[i][0], q.points()[i][1], q.points()[i][2], q.weights()[i]}); std::sort(v.begin(), v.end()); return v; };
    auto before = sorted(*g);
    std::unique_ptr<BT> bt(how & 16 ? new BT(max, std::shared_ptr<BS>(static_cast<const BS&>(*g).clone())) : new BT(max, g));
    auto judge = [&](const BT& t) {
      if (sorted(t.quadrature()) != before) no(PB(5), "batching lost, invented or changed points");
      if (t.max_batch_size() != max) no(PB(5), "a batcher reports another maximum");
      size_t pos = 0; nbat = t.nbatches();
      for (size_t i = 0; i < nbat; i++) {
        auto [lo, up, p, w] = t.at(i);
        if (p.empty() || p.size() > max || p.size() != w.size()) { no(PB(5), "a batch is empty, too large or not in pairs"); return; }
        P3 l = p[0], u = p[0]; for (auto& x : p) for (int k = 0; k < 3; k++) { if (x[k] < l[k]) l[k] = x[k]; if (x[k] > u[k]) u[k] = x[k]; }
        if (!(FPM & 4) && (l != lo || u != up)) no(PB(5), "a batch's box is not the box of its points");
        for (size_t k = 0; k < p.size(); k++, pos++) if (pos >= t.points().size() || p[k] != t.points()[pos] || w[k] != t.weights()[pos]) { no(PB(5), "a batch holds other than the grid's consecutive points"); return; }
      }
      if (pos != t.npts()) no(PB(5), "the batches do not hold every point");
    };
    judge(*bt);
    BT bc = static_cast<const BT&>(*bt).clone(); judge(bc);
    for (auto& w : bt->weights()) w *= 2;
    judge(bc); if (bc.weights().size() && bt->weights().size() && bc.weights().data() == bt->weights().data()) no(PB(8), "a batcher's clone shares its weights");
    for (auto& e : before) e[3] *= 2;
    judge(*bt);
    first = bt->points().size() ? bt->points()[0][0] : (F)0;
  };
  uint64_t budget = 40000000ull + n * na * 2000000ull;
  bool ok = attempt(W, op, body, no_effect, false, budget);
  if (!std::cout.good()) std::cout.clear();
  if (!ok) return;
  rt::shm->stat[rt::S_CHECKS]++; rt::shm->stat[rt::S_P0 + 4]++;
  if (bad) report(sf("%s-precision", sizeof(F) == 4 ? "single" : "extended"), who | (who & PB(5) ? PB(9) : 0) | (who & PB(7) ? PB(13) * pruned : 0), op, sf("in %s precision: %s", sizeof(F) == 4 ? "single" : "extended", bad));
  res(nbat); res(bitsof((double)first));
  post(W, op, {}, nullptr);
}

#include "quiet.hpp"

// ----------------------------------------------------------------- operations
static Obj* new_prim_wrapper(int k) {
  switch (k) {
#define X(kk, nm, ty, ar) case kk: return new QObj<nm##_t>();
    PRIM_TYPES(X)
#undef X
  }
  return nullptr;
}
static void prim_build(Obj* o, int k, int64_t n, double da, double db) {
  switch (k) {
#define X(kk, nm, ty, ar) case kk: static_cast<QObj<nm##_t>*>(o)->p = prim_new<nm##_t>(n, da, db); break;
    PRIM_TYPES(X)
#undef X
  }
}
template <class RQT, class AQT> struct TG { using type = ix::SphericalQuadrature<RQT, AQT>; };
template <class RQT, class AQT> static bool typed_grid(World& W, const Op& op, QBase* r, QBase* a, GObj* w, bool& done) {
  auto* rr = dynamic_cast<QObj<RQT>*>(r); auto* aa = dynamic_cast<QObj<AQT>*>(a);
  if (!rr || !aa) return false;
  using T = ix::SphericalQuadrature<RQT, AQT>;
  pt c{op.d[0], op.d[1], op.d[2]};
  int how = (int)(op.a[0] % 4);
  w->t = tops<T>();
  done = attempt(W, op, [&] {
    const RQT& q1 = *rr->p; const AQT& q2 = *aa->p;
    using SF = ix::SphericalGridFactory;
    if (how == 0) w->g = std::make_shared<T>(q1, q2, c); else if (how == 1) w->g = std::make_shared<T>(q1, q2);
    else if (how == 2) w->g = SF::generate_unpruned_grid(q1, q2); else { RQT m1(q1); AQT m2(q2); w->g = SF::generate_unpruned_grid(std::move(m1), std::move(m2)); } }, [&] { w->g.reset(); });
  return true;
}
struct BadRadial : ix::RadialTraits { // a client's own parameters the library does not know
  std::unique_ptr<ix::RadialTraits> clone() const override { return std::make_unique<BadRadial>(*this); }
  size_t npts() const override { return 3; }
  bool compare(const ix::RadialTraits&) const noexcept override { return false; }
};

static const int NBAD = 48;
static void do_bad(World& W, const Op& op);
static void do_throw(World& W, const Op& op);
static void exec_op(World& W, const Op& op);

static void post(World& W, const Op& op, std::initializer_list<int> except, const void* group) {
  check_world(W, op, "changed-by-unrelated-call", PB(8) | PB(12) | PB(4) | PB(7) | PB(1), except, group);
}

static void exec_op(World& W, const Op& op) {
  switch (op.code) {
    case O_RAD: {
      RadP r = radp(op); auto* w = new RFObj(); w->key = kR(r); w->rp = r;
      bool thr = ref_throws(w->key);
      if (!attempt(W, op, [&] { auto t = mk_traits(r); w->p = ix::RadialFactory::generate(RQ[r.rq], *t); }, [&] { w->p.reset(); }, thr)) { delete w; return; }
      vector<double> b; w->bits(b); check_ref(op, w->key, b);
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_ANG: {
      int aq = (int)(op.a[2] & 3); int64_t na = op.a[3]; auto* w = new AFObj(); w->key = kA(aq, na);
      if (!attempt(W, op, [&] { w->p = ix::S2Factory::generate(AQ[aq], (size_t)na); }, [&] { w->p.reset(); }, ref_throws(w->key))) { delete w; return; }
      vector<double> b; w->bits(b); check_ref(op, w->key, b);
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_PRIM: {
      int k = (int)(op.a[0] % 15); int64_t n = op.a[1];
      auto* w = static_cast<QBase*>(new_prim_wrapper(k)); w->prim = k; w->key = kQ(k, n, op.d[0], op.d[1]);
      if (k >= 7 && k <= 10) { static const int m[] = {0, 2, 1, 3}; w->rp = RadP{m[k - 7], n, op.d[0], k == 10 ? op.d[1] : -1.0}; } else if (k >= 11) { w->aq = k - 11; w->na = n; }
      if (!attempt(W, op, [&] { prim_build(w, k, n, op.d[0], op.d[1]); }, [&] { w->drop(); }, ref_throws(w->key))) { delete w; return; }
      vector<double> b; w->bits(b); check_ref(op, w->key, b);
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_SUB: {
      auto* r = as<QBase>(W, op.src, K_Q); auto* rr = dynamic_cast<QObj<BK>*>(r);
      if (!rr || rr->n() == 0) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      size_t n = rr->n(), b0 = (size_t)op.a[0] % n, e0 = b0 + 1 + (size_t)op.a[1] % (n - b0);
      using SQ = ix::SubQuadrature<BK>;
      auto* w = new QObj<SQ>();
      if (!attempt(W, op, [&] { const BK& q = *rr->p; w->p = new SQ(std::pair<size_t, size_t>(b0, e0), q); }, [&] { w->drop(); })) { delete w; return; }
      bool ok = w->p->npts() == e0 - b0;
      for (size_t i = b0; ok && i < e0; i++) ok = bitsof(w->p->points()[i - b0]) == bitsof(rr->p->points()[i]) && bitsof(w->p->weights()[i - b0]) == bitsof(rr->p->weights()[i]);
      if (!ok) report("subrange-differs", PB(13) | PB(7) | PB(2) | PB(12), op, sf("range [%zu,%zu) of %zu points", b0, e0, n));
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_UGRID: {
      RadP r = radp(op); int aq = (int)(op.a[2] & 3); int64_t na = op.a[3];
      auto* w = new GObj(); w->m = make_model(r, {Reg{0, r.n, aq, na}}, false, pt{0, 0, 0}); w->m->key = kU(r, aq, na);
      if (!attempt(W, op, [&] { auto t = mk_traits(r); w->g = ix::SphericalGridFactory::generate_unpruned_grid(RQ[r.rq], *t, AQ[aq], (size_t)na); }, [&] { w->g.reset(); }, (ref_throws(w->m->key) || ref_unknown(w->m->key)) && !parts_ok(r, {Reg{0, r.n, aq, na}}))) { delete w; return; }
      new_grid(W, op, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_PGRID: {
      RadP r = radp(op); auto regs = regs_of(op);
      auto* w = new GObj(); w->m = make_model(r, regs, true, pt{0, 0, 0}); w->m->key = kP(r, regs);
      auto ir = ix_regs(regs);
      if (!attempt(W, op, [&] { auto t = mk_traits(r); w->g = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, ir); }, [&] { w->g.reset(); }, (ref_throws(w->m->key) || ref_unknown(w->m->key)) && !parts_ok(r, regs))) { delete w; return; }
      new_grid(W, op, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_TGRID: {
      auto* r = as<QBase>(W, op.src, K_Q); auto* a = as<QBase>(W, op.src2, K_Q);
      if (!r || !a || r->prim < 7 || r->prim > 10 || a->prim < 11) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      auto* w = new GObj(); pt c{op.d[0], op.d[1], op.d[2]}; if (op.a[0] % 4 != 0) c = pt{0, 0, 0};
      w->m = std::make_shared<GModel>(); w->m->c = c;
      { // its parts as they are now (the client may have edited their weights)
        vector<double> rb, ab; r->bits(rb); a->bits(ab); size_t n = rb.size() / 2, na = ab.size() / 4;
        for (size_t j = 0; j < na; j++) for (size_t i = 0; i < n; i++) { double x = rb[i]; w->m->ra.push_back(pt{x * ab[3 * j], x * ab[3 * j + 1], x * ab[3 * j + 2]}); w->m->w.push_back(rb[n + i] * ab[3 * na + j] * (x * x)); }
        w->m->err = 2 * EPS * std::max({std::fabs(c[0]), std::fabs(c[1]), std::fabs(c[2])});
      }
      bool done = false;
      bool m = typed_grid<BK, LL>(W, op, r, a, w, done) || typed_grid<MK, DE>(W, op, r, a, w, done) || typed_grid<TA, AB>(W, op, r, a, w, done) || typed_grid<MHL, WO>(W, op, r, a, w, done);
      if (!m || !done) { if (!m) rt::shm->stat[rt::S_OPS_SKIPPED]++; delete w; return; }
      new_grid(W, op, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_TPGRID: {
      auto* g = as<RgpBase>(W, op.src, K_RGP);
      if (!g || !g->fin || g->add.empty()) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      pt c{op.d[0], op.d[1], op.d[2]}; int how = (int)(op.a[3] % 3); if (how) c = pt{0, 0, 0};
      vector<Reg> regs; for (size_t i = 0; i < g->add.size(); i++) regs.push_back(Reg{g->add[i].first, i + 1 < g->add.size() ? g->add[i + 1].first : g->rp.n, g->angq(), g->add[i].second});
      auto* w = new GObj(); w->m = make_model(g->rp, regs, true, c); w->t = g->gtops();
      if (!attempt(W, op, [&] { w->g = g->grid(c, how); }, [&] { w->g.reset(); })) { delete w; return; }
      new_grid(W, op, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_USPEC: {
      RadP r = radp(op); int aq = (int)(op.a[2] & 3); int64_t na = op.a[3];
      auto* w = new USObj(); w->rp = r; w->aq = aq; w->na = na; w->expect = mk_traits(r);
      if (!attempt(W, op, [&] { auto t = mk_traits(r); w->p.reset(new ix::UnprunedSphericalGridSpecification(RQ[r.rq], *t, AQ[aq], (size_t)na)); }, [&] { w->p.reset(); })) { delete w; return; }
      if (w->p->radial_quad != RQ[r.rq] || !w->p->radial_traits || !w->p->radial_traits->compare(*w->expect) || w->p->angular_quad != AQ[aq] || w->p->angular_size != (size_t)na)
        report("specification-differs", P_RESULT | PB(8) | PB(12), op, "a new specification does not hold what it was given");
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_PSPEC: {
      auto* u = as<USObj>(W, op.src, K_USPEC);
      if (!u) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      int sc = (int)(op.a[0] % 5); string key = kS(sc, u->rp, u->aq, u->na);
      auto* w = new PSObj(); w->rp = u->rp; w->expect = u->expect;
      const auto& us = *u->p;
      auto scheme = sc == 0 ? ix::PruningScheme::Unpruned : sc == 1 ? ix::PruningScheme::Robust : ix::PruningScheme::Treutler;
      if (!attempt(W, op, [&] {
            w->p.reset(new ix::PrunedSphericalGridSpecification(sc == 3 ? ix::robust_psi4_pruning_scheme(us) : sc == 4 ? ix::treutler_pruning_scheme(us) : ix::create_pruned_spec(scheme, us))); },
            [&] { w->p.reset(); }, ref_throws(key) || (ref_unknown(key) && !part_ok(kA(u->aq, u->na))))) { delete w; return; }
      vector<double> b; for (auto& x : w->p->pruning_regions) { b.push_back((double)x.idx_st); b.push_back((double)x.idx_en); b.push_back(aq_index(x.angular_quad)); b.push_back((double)x.angular_size); w->regs.push_back(Reg{(int64_t)x.idx_st, (int64_t)x.idx_en, aq_index(x.angular_quad), (int64_t)x.angular_size}); }
      check_ref(op, key, b);
      if (u->rp.n >= 1 && part_ok(kA(u->aq, u->na))) {
        auto& g = w->regs; int64_t at = 0; string e;
        for (size_t i = 0; i < g.size() && e.empty(); i++) {
          if (g[i].st >= g[i].en) continue;
          if (g[i].st != at) e = sf("region %zu starts at shell %lld, expected %lld", i, (long long)g[i].st, (long long)at);
          at = g[i].en;
          const Ref* ra = getref(kA(g[i].aq, g[i].na));
          if (ra && ra->status == 2) e = sf("region %zu asks for %lld angular points, which the scheme does not offer", i, (long long)g[i].na);
          if (g[i].aq != u->aq) e = sf("region %zu uses another angular scheme", i);
        }
        if (e.empty() && at != u->rp.n) e = sf("regions end at shell %lld of %lld", (long long)at, (long long)u->rp.n);
        if (!e.empty()) report("scheme-regions", PB(13), op, e + sf(" (scheme %d, radial size %lld, angular %d size %lld)", sc, (long long)u->rp.n, u->aq, (long long)u->na));
      }
      if (w->p->radial_quad != RQ[u->rp.rq] || !w->p->radial_traits || !w->p->radial_traits->compare(*w->expect)) report("specification-differs", P_RESULT | PB(8) | PB(12), op, "pruned specification does not carry the radial specification");
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_PSPECV: {
      RadP r = radp(op); auto regs = regs_of(op); auto ir = ix_regs(regs);
      auto* w = new PSObj(); w->rp = r; w->regs = regs; w->expect = mk_traits(r);
      if (!attempt(W, op, [&] { auto t = mk_traits(r); if (op.a[4] & 1) w->p.reset(new ix::PrunedSphericalGridSpecification(RQ[r.rq], std::move(t), ir)); else w->p.reset(new ix::PrunedSphericalGridSpecification(RQ[r.rq], *t, ir)); }, [&] { w->p.reset(); })) { delete w; return; }
      if (w->p->radial_quad != RQ[r.rq] || !w->p->radial_traits || !w->p->radial_traits->compare(*w->expect) || !(w->p->pruning_regions == ir)) report("specification-differs", P_RESULT | PB(8) | PB(12), op, "a new specification does not hold what it was given");
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_GEN: {
      auto* u = as<USObj>(W, op.src, K_USPEC); auto* p = as<PSObj>(W, op.src, K_PSPEC);
      if (!u && !p) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      auto* w = new GObj();
      if (u) { w->m = make_model(u->rp, {Reg{0, u->rp.n, u->aq, u->na}}, false, pt{0, 0, 0}); w->m->key = kU(u->rp, u->aq, u->na); }
      else { w->m = make_model(p->rp, p->regs, true, pt{0, 0, 0}); w->m->key = kP(p->rp, p->regs); }
      bool thr = (ref_throws(w->m->key) || ref_unknown(w->m->key)) && !(u ? parts_ok(u->rp, {Reg{0, u->rp.n, u->aq, u->na}}) : parts_ok(p->rp, p->regs));
      bool ok = u ? attempt(W, op, [&] { const auto& s = *u->p; w->g = ix::SphericalGridFactory::generate_grid(s); }, [&] { w->g.reset(); }, thr)
                  : attempt(W, op, [&] { const auto& s = *p->p; w->g = ix::SphericalGridFactory::generate_grid(s); }, [&] { w->g.reset(); }, thr);
      if (!ok) { delete w; return; }
      new_grid(W, op, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_SPECMUT: {
      auto* p = op.dst < 100 ? as<PSObj>(W, op.dst, K_PSPEC) : nullptr; auto* u = op.dst < 100 ? as<USObj>(W, op.dst, K_USPEC) : nullptr;
      RadP r = radp(op);
      if (p) {
        auto ex = std::shared_ptr<ix::RadialTraits>(mk_traits(r));
        if (op.a[4] % 2 == 0 && !p->regs.empty()) { size_t k = (size_t)op.a[5] % p->regs.size(); p->p->pruning_regions[k].angular_size = (size_t)op.a[3]; p->regs[k].na = op.a[3]; for (size_t i = 0; i < p->regs.size(); i++) if (p->regs[i].aq != (op.a[2] & 3)) { p->p->pruning_regions[i].angular_quad = AQ[op.a[2] & 3]; p->regs[i].aq = (int)(op.a[2] & 3); } }
        else { r.n = p->rp.n; ex = mk_traits(r); if (!attempt(W, op, [&] { auto t = mk_traits(r); p->p->radial_traits = std::move(t); p->p->radial_quad = RQ[r.rq]; }, nothing)) return; p->rp = r; p->expect = ex; }
      } else if (u) {
        u->p->angular_size = (size_t)op.a[3]; u->na = op.a[3]; u->p->angular_quad = AQ[op.a[2] & 3]; u->aq = (int)(op.a[2] & 3);
      } else { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      W.s[op.dst].last.clear(); W.s[op.dst].o->snap(W.s[op.dst].last);
      post(W, op, {op.dst}, nullptr); break;
    }
    case O_RGPNEW: case O_RGPVAR: {
      int ty = (int)(op.a[4] % 3); static const int rqk[] = {0, 1, 3}; RadP r = radp(op); r.rq = rqk[ty];
      auto mk = [&](auto* w) {
        using O = std::remove_pointer_t<decltype(w)>;
        using RQT = typename std::decay_t<decltype(w->rq)>::element_type; using RGP = typename O::RGP;
        using AQT = typename RGP::angular_type;
        w->rp = r; w->typ = ty;
        auto mkrq = [&] { auto t = mk_traits(r); return std::make_unique<RQT>(*t); };
        if (op.code == O_RGPVAR && op.v.size() >= 4) {
          int64_t i1 = op.v[1], i2 = op.v[2]; int64_t s0 = op.v[3 % op.v.size()], s1 = op.v.size() > 4 ? op.v[4] : s0, s2 = op.v.size() > 5 ? op.v[5] : s0;
          if (!attempt(W, op, [&] { auto q = mkrq(); auto p = std::make_unique<RGP>(*q, size_t(0), AQT((size_t)s0), (size_t)i1, AQT((size_t)s1), (size_t)i2, AQT((size_t)s2)); w->rq = std::move(q); w->p = std::move(p); }, [&] { w->drop(); })) { delete w; return (Obj*)nullptr; }
          w->add = {{0, s0}, {i1, s1}, {i2, s2}}; w->fin = true;
        } else if (!attempt(W, op, [&] { auto q = mkrq(); auto p = std::make_unique<RGP>(); w->rq = std::move(q); w->p = std::move(p); }, [&] { w->drop(); })) { delete w; return (Obj*)nullptr; }
        return (Obj*)w;
      };
      Obj* o = ty == 0 ? mk(new Rgp0()) : ty == 1 ? mk(new Rgp1()) : mk(new Rgp2());
      if (!o) return;
      string e = static_cast<RgpBase*>(o)->check(); if (!e.empty()) report("region-list", PB(13) | PB(3) | PB(8), op, e);
      set_slot(W, op.dst, o); post(W, op, {op.dst}, nullptr); break;
    }
    case O_RGPADD: {
      auto* g = op.dst < 100 ? as<RgpBase>(W, op.dst, K_RGP) : nullptr;
      int64_t idx = op.a[1], na = op.a[3];
      if (!g || g->fin || idx >= g->rp.n || (g->add.empty() ? idx != 0 : idx <= g->add.back().first)) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      static const int aqk[] = {2, 3, 1}; const Ref* ar = getref(kA(aqk[g->typ % 3], na)); // the slot may hold another family than planned
      if (!attempt(W, op, [&] { g->append(idx, na); }, nothing, !(ar && ar->status == 1))) return;
      g->add.push_back({idx, na});
      string e = g->check(); if (!e.empty()) report("region-list", PB(13) | PB(3) | PB(2), op, e);
      W.s[op.dst].last.clear(); g->snap(W.s[op.dst].last);
      post(W, op, {op.dst}, nullptr); break;
    }
    case O_RGPFIN: {
      auto* g = op.dst < 100 ? as<RgpBase>(W, op.dst, K_RGP) : nullptr;
      if (!g || g->add.empty()) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      if (!attempt(W, op, [&] { g->finalize(); }, nothing)) return;
      g->fin = true;
      string e = g->check(); if (!e.empty()) report("region-list", PB(13) | PB(3) | PB(2), op, e);
      W.s[op.dst].last.clear(); g->snap(W.s[op.dst].last);
      post(W, op, {op.dst}, nullptr); break;
    }
    case O_PROD: {
      auto* r = dynamic_cast<QObj<BK>*>(as<QBase>(W, op.src, K_Q)); auto* a = dynamic_cast<QObj<LL>*>(as<QBase>(W, op.src2, K_Q));
      if (!r || !a) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      auto* w = new ProdObj();
      if (!attempt(W, op, [&] { const BK& q1 = *r->p; const LL& q2 = *a->p; w->p = new PQ(q1, q2); }, [&] { w->drop(); })) { delete w; return; }
      vector<double> b1, b2, c1, c2; r->bits(b1); a->bits(b2); qbits(*w->p->q1(), c1); qbits(*w->p->q2(), c2);
      if (hash_bits(b1) != hash_bits(c1) || hash_bits(b2) != hash_bits(c2)) report("product-differs", PB(8) | PB(12) | PB(7), op, "product does not hold the quadratures it was given");
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_COPY: case O_MOVE: {
      Obj* s = get(W, op.src);
      bool mv = op.code == O_MOVE && op.src < 100;
      if (!s || (mv ? !s->can_move() : !s->can_copy()) || (s->zombie && mv) || op.dst == op.src || (s->zombie && s->kind == K_RGP)) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      if (s->zombie) { // a moved-from object: copying it must at least be harmless
        Obj* w = s->wrapper(); w->zombie = true;
        if (!attempt(W, op, [&] { w->copy_from(*s); }, [&] { w->drop(); })) { delete w; return; }
        set_slot(W, op.dst, w); return;
      }
      if (s->kind == K_BATCH && W.shared == nullptr && false) return;
      Snap before; s->snap(before);
      Obj* w = s->wrapper();
      bool ok;
      if (mv) {
        ok = attempt(W, op, [&] { w->move_from(*s); }, nothing, false, BUD, {op.src}, s->group());
        if (!ok) { // handed over by move and failed: no claim on the source beyond being destructible
          delete w; if (s->kind == K_GRID) zombify(W, s->group(), nullptr); s->zombie = true; return; }
      } else ok = attempt(W, op, [&] { w->copy_from(*s); }, [&] { w->drop(); });
      if (!ok) { delete w; return; }
      if (s->kind == K_BATCH) { auto* sb = static_cast<BObj*>(s); auto* wb = static_cast<BObj*>(w); wb->m = sb->m; if (mv) wb->g = sb->g; else if (sb->g) wb->g = sb->g; }
      Snap after; w->snap(after);
      rt::mix(after.size());
      if (after != before) { size_t k = 0; while (k < after.size() && k < before.size() && after[k] == before[k]) k++; report(mv ? "moved-differs" : "copy-differs", PB(8) | PB(12) | PB(4) | PB(2) | PB(7), op, sf("%s: destination differs from the source (state word %zu of %zu)", kname(s->kind), k, before.size())); }
      if (s->kind == K_PSPEC) { // equality says what it should, both ways, against every specification about
        auto* pa = static_cast<PSObj*>(w); auto sane = [](const PSObj* o) { return o->p->radial_traits && o->p->radial_traits->compare(*o->p->radial_traits); };
        if (sane(pa)) { rt::begin_op(rt::Fault{}, BUD); bool eq = *pa->p == *static_cast<PSObj*>(s)->p && *static_cast<PSObj*>(s)->p == *pa->p; rt::end_op();
        if (!eq) report("copy-differs", PB(8) | PB(12), op, "a copied specification does not compare equal to its source");
        for (auto& x : W.s) if (x.o && !x.o->zombie && x.o->kind == K_PSPEC && sane(static_cast<PSObj*>(x.o))) { auto* o = static_cast<PSObj*>(x.o); bool want = pa->p->radial_quad == o->p->radial_quad && pa->p->radial_traits->compare(*o->p->radial_traits) && pa->regs.size() == o->regs.size();
          for (size_t i = 0; want && i < pa->regs.size(); i++) { auto &u = pa->regs[i], &v = o->regs[i]; want = u.st == v.st && u.en == v.en && u.aq == v.aq && u.na == v.na; }
          rt::begin_op(rt::Fault{}, BUD); bool g1 = *pa->p == *o->p, g2 = *o->p == *pa->p; rt::end_op();
          if (g1 != want || g2 != want) report("equality-wrong", PB(8), op, want ? "specifications with the same contents compare different" : "specifications with different contents compare equal"); } } }
      if (mv) { if (s->kind == K_GRID) zombify(W, s->group(), w); s->zombie = true; }
      if (s->kind == K_BATCH && op.src >= 100) { destroy_obj(w); post(W, op, {}, nullptr); return; } // a batcher's copy shares its grid: another task may only read it
      set_slot(W, op.dst, w);
      post(W, op, {op.dst, mv ? op.src : -1}, nullptr);
      break;
    }
    case O_CLONE: {
      Obj* s = get(W, op.src);
      if (!s || s->zombie || op.dst == op.src) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      Snap before, after; s->snap(before);
      Obj* w = nullptr;
      if (s->kind == K_GRID) {
        auto* g = static_cast<GObj*>(s); auto* n = static_cast<GObj*>(g->wrapper()); w = n;
        if (!attempt(W, op, [&] { const Base& b = *g->g; n->g = b.clone(); }, [&] { n->g.reset(); })) { delete w; return; }
      } else if (s->kind == K_BATCH) {
        auto* g = static_cast<BObj*>(s); auto* n = new BObj(); n->max = g->max; n->m = std::make_shared<GModel>(*g->m); w = n;
        if (!attempt(W, op, [&] { const Batcher& b = *g->b; n->b = new (n->mem) Batcher(b.clone()); }, [&] { n->drop(); })) { delete w; return; }
      } else if (s->kind == K_TRAITS) {
        w = s->wrapper();
        if (!attempt(W, op, [&] { w->copy_from(*s); }, [&] { w->drop(); })) { delete w; return; }
      } else { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      w->snap(after);
      if (after != before) report("clone-differs", PB(8) | PB(12) | PB(4) | PB(2) | PB(7) | PB(5), op, sf("clone of a %s differs from its source", kname(s->kind)));
      if (w->group() && w->group() == s->group()) report("clone-shares-storage", PB(8), op, "the clone is the same object");
      if (s->kind == K_BATCH) check_batches(op, *static_cast<BObj*>(w)->b, static_cast<BObj*>(w)->max);
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_ASSIGN: case O_ASSIGNMV: {
      Obj* d = op.dst < 100 ? get(W, op.dst) : nullptr; Obj* s = get(W, op.src);
      if (!d || !s || d->kind != s->kind || s->zombie) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      if (d->kind == K_PSPEC) {
        auto* a = static_cast<PSObj*>(d); auto* b = static_cast<PSObj*>(s);
        if (d->zombie) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
        Snap want; b->snap(want);
        if (!attempt(W, op, [&] { const auto& y = *b->p; *a->p = y; }, nothing)) return;
        a->rp = b->rp; a->regs = b->regs; a->expect = b->expect;
        if (!(*a->p == *b->p)) report("assigned-differs", PB(8) | PB(3) | PB(2), op, "an assigned specification does not compare equal to its source");
        Snap got; a->snap(got); if (got != want) report("assigned-differs", PB(8) | PB(3) | PB(2), op, op.dst == op.src ? "self-assignment changed the specification" : "assigned specification differs from its source");
        if (a->p->radial_traits && a != b && a->p->radial_traits.get() == b->p->radial_traits.get()) report("copy-shares-storage", PB(8), op, "radial parameters shared");
        W.s[op.dst].last = got; post(W, op, {op.dst}, nullptr);
      } else if (d->kind == K_RGP) {
        auto* a = static_cast<RgpBase*>(d); auto* b = static_cast<RgpBase*>(s);
        const bool mv = op.code == O_ASSIGNMV;
        if (a->typ != b->typ || (mv && (op.src >= 100 || a == b)) || (d->zombie && !mv && a == b)) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
        Snap want; b->snap(want);
        if (!attempt(W, op, [&] { if (mv) a->assign_mv(*b); else a->assign_cp(*b); }, nothing)) return;
        if (!mv && a != b && a->shares(*b)) report("copy-shares-storage", PB(8), op, "region starts shared");
        a->zombie = false; a->rp = b->rp; a->add = b->add; a->fin = b->fin;
        Snap got; a->snap(got); if (got != want) report("assigned-differs", PB(8) | PB(3) | PB(2) | PB(13), op, "assigned region list differs from its source");
        string e = a->check(); if (!e.empty()) report("region-list", PB(13) | PB(3) | PB(2) | PB(8), op, e);
        if (mv) b->zombie = true;
        W.s[op.dst].last = got; post(W, op, {op.dst, mv ? op.src : -1}, nullptr);
      } else rt::shm->stat[rt::S_OPS_SKIPPED]++;
      break;
    }
    case O_DESTROY: {
      if (op.dst >= 100 || !W.s[op.dst].o) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      destroy_obj(W.s[op.dst].o); W.s[op.dst].o = nullptr; W.s[op.dst].last.clear();
      rt::shm->stat[rt::S_OPS]++; rt::shm->stat[rt::S_OPS_OK]++;
      post(W, op, {op.dst}, nullptr); break;
    }
    case O_DROP: { // the client lets go of its own handle to a grid that a batcher shares
      auto* b = op.dst < 100 ? as<BObj>(W, op.dst, K_BATCH) : nullptr;
      if (!b || !b->g) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      rt::begin_op(rt::Fault{}, BUD); b->g.reset(); rt::end_op();
      post(W, op, {}, nullptr); check_batches(op, *b->b, b->max); break;
    }
    case O_RECENTER: {
      auto* g = op.dst < 100 ? as<GObj>(W, op.dst, K_GRID) : nullptr; auto* b = op.dst < 100 ? as<BObj>(W, op.dst, K_BATCH) : nullptr;
      if (!g && !b) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      GM m = g ? g->m : b->m; Base& base = g ? *g->g : b->b->quadrature(); const void* grp = &base;
      pt c{op.d[0], op.d[1], op.d[2]};
      vector<double> w0 = base.weights(); pt cold = m->c;
      vector<pt> p0; if (!m->known) p0 = base.points();
      if (!attempt(W, op, [&] { if (g) g->g->recenter(c); else b->b->recenter(c); }, nothing)) return;
      auto mag = [](const pt& x) { double v = 0; for (double y : x) { if (!std::isfinite(y)) return std::numeric_limits<double>::infinity(); v = std::max(v, std::fabs(y)); } return v; };
      double shift = mag(c) + mag(cold);
      if (!(cold == c)) { m->err += 4 * EPS * shift; m->moves++; }
      m->c = c;
      if (m->known) { double mx = shift; for (auto& r : m->ra) mx = std::max(mx, mag(r)); if (!(mx < 1e306)) m->known = false; } // overflow: rigidity is out of reach
      else if (!p0.empty() && base.points().size() == p0.size() && shift < 1e306) // points the client wrote itself still move together
        for (size_t i = 0; i < p0.size(); i++) { if (!(mag(p0[i]) < 1e306)) continue; for (int k = 0; k < 3; k++) { double e = p0[i][k] + (c[k] - cold[k]); if (!closed(base.points()[i][k], e, 16 * EPS * (shift + std::fabs(p0[i][k])) + 1e-300)) report("recentre-not-rigid", PB(7) | PB(5), op, sf("point %zu moved from %.17g to %.17g on axis %d, expected %.17g", i, p0[i][k], base.points()[i][k], k, e)); } }
      if (w0.size() != base.weights().size() || (w0.size() && memcmp(w0.data(), base.weights().data(), w0.size() * 8))) report("recentre-changed-weights", PB(7) | PB(5), op, "weights changed");
      { bool oo; string e = check_grid(base, *m, oo); if (!e.empty()) report("recentre-not-rigid", P_MODEL | PB(5) | (m->pruned ? PB(13) : 0), op, e); }
      resnap(W, grp); post(W, op, {}, grp);
      for (auto& x : W.s) if (x.o && !x.o->zombie && x.o->kind == K_BATCH && x.o->group() == grp && !static_cast<BObj*>(x.o)->sharedw) check_batches(op, *static_cast<BObj*>(x.o)->b, static_cast<BObj*>(x.o)->max);
      break;
    }
    case O_EDITW: { // a client scales weights in place, as partitioning codes do
      auto* g = op.dst < 100 ? as<GObj>(W, op.dst, K_GRID) : nullptr; auto* b = op.dst < 100 ? as<BObj>(W, op.dst, K_BATCH) : nullptr;
      if (!g && !b) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      Base& base = g ? *g->g : b->b->quadrature(); GM m = g ? g->m : b->m;
      auto& ws = g ? g->g->weights() : b->b->weights();
      for (size_t i = 0; i < ws.size(); i++) { double f = 0.25 + 0.5 * ((i * 7 + (size_t)op.a[0]) % 5); ws[i] *= f; if (m->known && m->w.size() == ws.size()) m->w[i] *= f; }
      m->key.clear();
      if (&base.weights() != &ws) report("weights-not-shared", PB(5) | PB(7), op, "the batcher's weights are not its grid's");
      { bool oo; string e = check_grid(base, *m, oo); if (!e.empty()) report("edit-not-kept", P_MODEL | PB(5), op, e); }
      resnap(W, &base); post(W, op, {}, &base);
      for (auto& x : W.s) if (x.o && !x.o->zombie && x.o->kind == K_BATCH && x.o->group() == &base && !static_cast<BObj*>(x.o)->sharedw) check_batches(op, *static_cast<BObj*>(x.o)->b, static_cast<BObj*>(x.o)->max);
      break;
    }
    case O_EDITP: { // a client overwrites point storage
      auto* g = op.dst < 100 ? as<GObj>(W, op.dst, K_GRID) : nullptr;
      if (!g) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      auto& P = g->g->points(); rt::Rng r((uint64_t)op.a[1] + 5);
      double base = op.d[0]; const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
      for (size_t i = 0; i < P.size(); i++) switch (op.a[0] % 12) {
        case 0: P[i] = pt{base, base, base}; break;
        case 1: P[i][(size_t)op.a[1] % 3] = base; break;
        case 2: for (int k = 0; k < 3; k++) { P[i][k] = base; for (uint64_t u = r.below(3); u; u--) P[i][k] = std::nextafter(P[i][k], inf); } break;
        case 3: if (r.chance(0.3)) P[i] = pt{base, base, base}; break;
        case 4: if (r.chance(0.2)) P[i][r.below(3)] = nan; break;
        case 5: if (r.chance(0.2)) P[i][r.below(3)] = r.chance(0.5) ? inf : -inf; break;
        case 6: { double s = std::ldexp(1.0, -(int)(r.below(1070))); P[i] = pt{s, s, s}; break; }
        case 7: for (int k = 0; k < 3; k++) P[i][k] = (double)(int64_t)r.below(2); break;
        case 8: for (int k = 0; k < 3; k++) P[i][k] = std::ldexp((double)(int64_t)r.range(-8, 8), 1020); break;
        case 9: for (int k = 0; k < 3; k++) P[i][k] = 5e-324 * (double)r.below(4); break;
        case 10: { double s = std::ldexp(1.0, 900 - (int)((i * (1 + (size_t)op.a[1] % 5)) % 1900)); P[i] = pt{s, op.a[1] & 8 ? s : base, op.a[1] & 16 ? -s : s}; break; } // each one closer to the next than to the last
        case 11: { double s = r.chance(0.5) ? base : base + 1e6; for (uint64_t u = r.below(2); u; u--) s = std::nextafter(s, inf); P[i] = pt{s, s, base}; break; }
      }
      g->m->known = false; g->m->key.clear();
      resnap(W, g->g.get()); post(W, op, {}, g->g.get()); break;
    }
    case O_EDITQ: {
      auto* q = op.dst < 100 ? as<QBase>(W, op.dst, K_Q) : nullptr;
      if (!q) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      q->edit((size_t)op.a[0], op.d[0]); q->key.clear();
      W.s[op.dst].last.clear(); q->snap(W.s[op.dst].last); post(W, op, {op.dst}, nullptr); break;
    }
    case O_BATCH: { // a[0]: 0 from a const grid, 1 taking the grid over, 2 sharing it, 3 again over the grid of batcher src
      size_t max = (size_t)op.a[1]; int mode = (int)(op.a[0] % 6);
      auto* g = as<GObj>(W, op.src, K_GRID); auto* sb = as<BObj>(W, op.src, K_BATCH);
      bool from_b = mode == 3 || mode == 4;
      if ((from_b ? !sb : !g) || (mode == 4 && sb->sharedw) || (op.src >= 100 && mode != 0 && mode != 5) || op.dst == op.src) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      if (g && !g->t && mode == 1) mode = 2;
      if (mode == 5 && (!g->t || max == 0)) mode = 0;
      if (mode == 4) max = sb->max;
      const Base& base = from_b ? static_cast<const Batcher&>(*sb->b).quadrature() : *g->g;
      vector<pt> P0 = base.points(); vector<double> W0 = base.weights();
      uint64_t n = P0.size();
      GM m0 = from_b ? sb->m : g->m;
      vector<size_t> idx{0};
      if (mode == 4) { const Batcher& c = *sb->b; for (size_t i = 0; i < c.nbatches(); i++) idx.push_back(idx.back() + std::get<2>(c.at(i)).size()); }
      if (mode == 5) while (idx.back() < n) idx.push_back(std::min<size_t>(n, idx.back() + 1 + (idx.size() * 7 + (size_t)op.a[2]) % max));
      MEAS.known = m0->known;
      uint64_t budget = 2000000ull + n * (m0->known && PROP != 24 ? 20000ull : 400000ull); // the halving fallback needs about log2(n) passes
      auto* w = new BObj(); w->max = max;
      const void* grp = (mode == 2) ? (const void*)g->g.get() : nullptr;
      uint64_t ls[4], le[4]; log_state(ls);
      auto body = [&] {
        if (mode == 0) { if (g->t) { const Base& cb = *g->g; g->t->mkb(w->mem, max, cb); } else { std::shared_ptr<Base> c = static_cast<const Base&>(*g->g).clone(); new (w->mem) Batcher(max, c); } }
        else if (mode == 1) g->t->mkbmv(w->mem, max, *g->g);
        else if (mode == 2) new (w->mem) Batcher(max, g->g);
        else if (mode == 3) { std::shared_ptr<Base> c = static_cast<const Batcher&>(*sb->b).quadrature().clone(); new (w->mem) Batcher(max, c); }
        else if (mode == 4) { std::shared_ptr<Base> c = static_cast<const Batcher&>(*sb->b).quadrature().clone(); new (w->mem) Batcher(max, c, idx); }
        else { const Base& cb = *g->g; g->t->mkbi(w->mem, max, cb, idx, op.a[2] & 1); }
        w->b = (Batcher*)w->mem;
      };
      bool expect_refuse = max == 0;
      Op ob = op; ob.a[0] = mode; if (mode == 1) { if (ob.sweep) { ob.sweep = 0; ob.f.kind = rt::F_NTH; ob.f.a = 1 + (uint64_t)op.a[1] % 4; } ob.rep = 0; } // a grid can be handed over only once
      bool ok = attempt(W, ob, body, [&] { w->drop(); }, expect_refuse, budget, {mode == 1 ? op.src : -1}, mode == 1 ? g->g.get() : nullptr);
      log_state(le); if (memcmp(ls, le, sizeof ls)) report("log-format-changed", PB(9), op, "the stream's formatting state was changed");
      if (!std::cout.good()) std::cout.clear();
      if (!ok) { delete w; if (mode == 1) { zombify(W, g->g.get(), nullptr); g->zombie = true; } return; }
      if (expect_refuse && n > 0) report("zero-maximum-accepted", PB(6) | PB(11) | PB(5), op, sf("maximum 0 accepted for %llu points", (unsigned long long)n));
      w->m = (mode == 2) ? m0 : std::make_shared<GModel>(*m0);
      if (mode == 2) w->g = g->g;
      const Base& nb = static_cast<const Batcher&>(*w->b).quadrature();
      check_reorder(op, P0, W0, nb, *w->m);
      { bool oo; string e = check_grid(nb, *w->m, oo); if (!e.empty()) report("batched-grid-is-not-its-parts", P_MODEL | PB(5), op, e); }
      if (max > 0) check_batches(op, *w->b, max);
      if (mode >= 4) { const Batcher& c = *w->b; bool same = c.nbatches() + 1 == idx.size(); for (size_t i = 0; same && i + 1 < idx.size(); i++) same = std::get<2>(c.at(i)).size() == idx[i + 1] - idx[i]; if (!same || c.points() != P0) { bool nan = false; for (auto& x : P0) for (double y : x) nan |= std::isnan(y); if (!same || !nan) report("batch:given-partition", P_BATCH, op, "a batcher given its batches does not have those batches of that grid"); } }
      w->sharedw = max == 0;
      { rt::mix(n); rt::mix(w->b->nbatches()); vector<double> b; put(nb.points(), b); rt::mix(hash_bits(b)); }
      rt::shm->stat[rt::S_P0 + 5]++;
      if (n == 0) rt::shm->stat[rt::S_P0 + 6]++;
      if (w->b->nbatches() > 27) rt::shm->stat[rt::S_P0 + 7]++;
      if (mode == 1) { zombify(W, g->g.get(), w); g->zombie = true; }
      // a shared grid was reordered under every handle to it: earlier batchers on it no longer own its order
      if (mode == 2) for (auto& x : W.s) if (x.o && !x.o->zombie && x.o->kind == K_BATCH && x.o->group() == grp && x.o != w) static_cast<BObj*>(x.o)->sharedw = true;
      set_slot(W, op.dst, w);
      if (grp) resnap(W, grp);
      post(W, op, {op.dst, mode == 1 ? op.src : -1}, grp);
      break;
    }
    case O_BAT: {
      auto* b = as<BObj>(W, op.src, K_BATCH);
      if (!b || b->sharedw) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      size_t nb = static_cast<const Batcher&>(*b->b).nbatches(), i = (size_t)op.a[0] % (nb + 1); if (op.a[1] == 1) i = nb; if (op.a[1] == 2) i = ~0ull - (size_t)op.a[0] % 3;
      bool oob = i >= nb; bool cst = op.src >= 100 || op.a[2] == 0;
      struct R { pt lo, up; size_t n = 0; uint64_t h = 0; } r;
      bool ok = attempt(W, op, [&] {
        if (cst) { const Batcher& c = *b->b; auto [lo, up, p, w] = c.at(i); r.lo = lo; r.up = up; r.n = p.size(); r.h = 1; for (auto& x : p) r.h = hc(r.h, x); for (auto& x : w) r.h = hc(r.h, x); }
        else { auto [lo, up, p, w] = b->b->at(i); r.lo = lo; r.up = up; r.n = p.size(); r.h = 1; for (auto& x : p) r.h = hc(r.h, x); for (auto& x : w) r.h = hc(r.h, x); } }, no_effect, oob);
      if (!ok) return;
      if (oob) { report("index-past-end-accepted", PB(5) | PB(11), op, sf("batch %zu of %zu read", i, nb)); return; }
      auto [lo, up, p, w] = static_cast<const Batcher&>(*b->b).at(i); uint64_t h = 1; for (auto& x : p) h = hc(h, x); for (auto& x : w) h = hc(h, x);
      if ((h != r.h && !(FPM & 4)) || r.n != p.size() || (!(FPM & 4) && (memcmp(&lo, &r.lo, 24) || memcmp(&up, &r.up, 24)))) report("batch:read", P_BATCH, op, "reading one batch gives different results");
      res(h); post(W, op, {}, nullptr); break;
    }
    case O_BITER: {
      auto* b = as<BObj>(W, op.src, K_BATCH);
      if (!b || b->sharedw || op.src >= 100) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      uint64_t h1 = 1, h2 = 1; size_t cnt = 0;
      int how = (int)(op.a[0] % 5);
      bool ok = attempt(W, op, [&] {
        h1 = 1; cnt = 0;
        if (how == 0) { for (auto it = b->b->begin(); it != b->b->end(); ++it) { auto [lo, up, p, w] = *it; h1 = hc(h1, lo); h1 = hc(h1, up); for (auto& x : p) h1 = hc(h1, x); for (auto& x : w) h1 = hc(h1, x); cnt++; } }
        else if (how == 1) { auto it = b->b->begin(); while (it != b->b->end()) { auto cur = it++; auto [lo, up, p, w] = *cur; h1 = hc(h1, lo); h1 = hc(h1, up); for (auto& x : p) h1 = hc(h1, x); for (auto& x : w) h1 = hc(h1, x); cnt++; } }
        else if (how == 3) { size_t nb = b->b->nbatches(); for (size_t i = 0; i < nb; i++) { auto it = b->b->begin(); it + (int)i; auto [lo, up, p, w] = *it; h1 = hc(h1, lo); h1 = hc(h1, up); for (auto& x : p) h1 = hc(h1, x); for (auto& x : w) h1 = hc(h1, x); cnt++; } }
        else if (how == 4) { const Batcher& cb = *b->b; auto en = cb.cend(); for (auto it = cb.cbegin(); it.idx_it != en.idx_it; ++it) { auto [lo, up, p, w] = *it; h1 = hc(h1, lo); h1 = hc(h1, up); for (auto& x : p) h1 = hc(h1, x); for (auto& x : w) h1 = hc(h1, x); cnt++; } }
        else { for (auto it = b->b->begin(); it != b->b->end(); ++it) { auto [n, pb, pe, wb, we] = it.range(); auto lo = *pb, up = *pb; for (auto q = pb; q != pe; ++q) for (int k = 0; k < 3; k++) { lo[k] = (*q)[k] < lo[k] ? (*q)[k] : lo[k]; up[k] = (*q)[k] > up[k] ? (*q)[k] : up[k]; }
          auto bx = *it; h1 = hc(h1, std::get<0>(bx)); h1 = hc(h1, std::get<1>(bx)); for (auto q = pb; q != pe; ++q) h1 = hc(h1, *q); for (auto q = wb; q != we; ++q) h1 = hc(h1, *q); cnt++; (void)n; } } }, no_effect);
      if (!ok) return;
      const Batcher& c = *b->b;
      for (size_t i = 0; i < c.nbatches(); i++) { auto [lo, up, p, w] = c.at(i); h2 = hc(h2, lo); h2 = hc(h2, up); for (auto& x : p) h2 = hc(h2, x); for (auto& x : w) h2 = hc(h2, x); }
      if (cnt != c.nbatches() || (h1 != h2 && !(FPM & 4))) report("batch:iteration", P_BATCH, op, sf("iteration gives %zu batches, nbatches() %zu; contents %s", cnt, c.nbatches(), h1 == h2 ? "agree" : "differ"));
      check_batches(op, c, b->max); res(h1); post(W, op, {}, nullptr); break;
    }
    case O_READ: case O_VISIT: {
      Obj* s = get(W, op.src);
      if (!s || s->zombie || (s->kind == K_BATCH && static_cast<BObj*>(s)->sharedw)) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
      if (op.code == O_VISIT && s->kind == K_GRID && static_cast<GObj*>(s)->t) { auto* g = static_cast<GObj*>(s); uint64_t a = 0; const Base& cb = *g->g;
        if (!attempt(W, op, [&] { a = g->t->slice(cb); }, no_effect)) return;
        if (a != read_q(cb)) report("copy-differs", PB(8) | PB(12) | PB(7) | PB(2), op, "a grid copied into a plain quadrature differs from it"); }
      uint64_t h = 0; bool q = s->kind == K_Q && op.code == O_VISIT;
      if (!attempt(W, op, [&] { h = q ? static_cast<QBase*>(s)->visit() : s->read(); }, no_effect)) return;
      uint64_t h2 = q ? static_cast<QBase*>(s)->visit() : s->read();
      if (h != h2) report("read-differs", PB(4) | PB(12), op, sf("reading a %s twice gives different contents", kname(s->kind)));
      res(h); post(W, op, {}, nullptr); break;
    }
    case O_NAMER: case O_NAMEA: {
      static int asked = 0; bool before = asked++ > 0; // other names were looked up earlier
      bool ang = op.code == O_NAMEA; int ex = expect_name(op.s, ang); int got = -2;
      bool ok = attempt(W, op, [&] { got = -2; if (ang) { auto a = ix::angular_from_string(op.s); got = -3; for (int i = 0; i < 4; i++) if (AQ[i] == a) got = i; } else { auto r = ix::radial_from_string(op.s); got = -3; for (int i = 0; i < 4; i++) if (RQ[i] == r) got = i; } }, no_effect, true);
      res((uint64_t)got);
      if (!ok) { if (ex >= 0 && op.f.kind == rt::F_NONE && !op.sweep) report("name-refused", PB(10) | PB(1) | PB(4) | PB(11), op, "documented name \"" + op.s + "\" refused"); return; }
      if (ex < 0) { report("bad-name-accepted", PB(10) | PB(11) | (before ? PB(1) | PB(4) : 0), op, "\"" + op.s + "\" accepted"); return; }
      if (got != ex) report("name-wrong", PB(10) | PB(1) | PB(4), op, "\"" + op.s + sf("\" gives scheme %d instead of %d", got, ex));
      break;
    }
    case O_LOCALE: {
      if (g_skip & 1) return;
      LOCALE_CHANGED = true; rt::shm->stat[rt::S_LOCALE]++;
      static const char* L[] = {"C", "tr_TR.ISO-8859-9", "C.UTF-8", "tr_TR.ISO-8859-9", "POSIX"};
      const char* l = L[op.a[0] % 5];
      if (op.a[1] == 0) { if (!setlocale(op.a[2] ? LC_CTYPE : LC_ALL, l)) setlocale(LC_ALL, "C"); }
      else if (op.a[1] == 1) { if (locale_t x = newlocale(LC_ALL_MASK, l, (locale_t)0)) { uselocale(x); } }
      else if (op.a[1] == 2) { try { std::locale::global(std::locale(l)); } catch (const std::exception&) { std::locale::global(std::locale::classic()); } }
      else { // a client's own facets: digit grouping, comma as decimal point, odd case mapping
        struct NP : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\1"; } };
        struct CT : std::ctype<char> { char do_toupper(char c) const override { return c == 'i' ? 'x' : std::ctype<char>::do_toupper(c); } const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; } char do_tolower(char c) const override { return c == 'I' ? 'q' : std::ctype<char>::do_tolower(c); } };
        std::locale::global(std::locale(std::locale(std::locale::classic(), new NP), new CT));
      }
      break;
    }
    case O_LOG: {
      if (!LOGB) return;
      LOGB->n = 0; LOGB->budget = op.a[0] % 4 == 0 ? -1 : op.a[1]; LOGB->throws = op.a[0] % 4 == 3; LOGB->stall = op.a[2] & 8 ? 3600000000000ull : 0;
      LOGB->nest = op.a[2] & 16; if (LOGB->nest) nest_set(op);
      std::cout.clear(); std::cout.exceptions(op.a[0] % 4 >= 2 ? std::ios::badbit : std::ios::goodbit);
      if (op.a[2] & 1) std::cout.setf(std::ios::scientific | std::ios::showpos); else std::cout.unsetf(std::ios::scientific | std::ios::showpos);
      std::cout.precision(op.a[2] & 2 ? 3 : 6); std::cout.fill(op.a[2] & 4 ? '*' : ' ');
      break;
    }
    case O_TRAITS: {
      RadP r = radp(op); auto* w = new TrObj(); w->rp = r; w->expect = mk_traits(r);
      if (!attempt(W, op, [&] { w->p = mk_traits(r); }, [&] { w->p.reset(); })) { delete w; return; }
      if ((int64_t)w->p->npts() != r.n || !w->p->compare(*w->expect)) report("traits-differ", PB(1) | PB(8), op, "radial parameters do not hold what they were given");
      set_slot(W, op.dst, w); post(W, op, {op.dst}, nullptr); break;
    }
    case O_NEST: {
      RadP r = radp(op); r.rq = 0; int aq = (int)(op.a[2] & 3); int64_t na = op.a[3]; int kind = (int)(op.a[4] % 7);
      using USpec = ix::UnprunedSphericalGridSpecification; using PSpec = ix::PrunedSphericalGridSpecification; using SF = ix::SphericalGridFactory;
      using PT = ix::quadrature_traits<ix::ProductQuadrature<NestOp, BK, LL>>;
      if (kind == 6) { aq = 2; if (!part_ok(kA(2, na))) na = 6; }
      nest_set(op); Nest& N = NEST[rt::task_id()]; int calls = 0;
      std::shared_ptr<Base> g; std::unique_ptr<USpec> u; std::unique_ptr<PSpec> ps; decltype(ix::RadialFactory::generate(RQ[0], std::declval<const ix::RadialTraits&>())) rp;
      std::unique_ptr<std::tuple<vector<pt>, vector<double>>> prod;
      auto clear = [&] { g.reset(); u.reset(); ps.reset(); rp.reset(); prod.reset(); };
      bool ok = attempt(W, op, [&] {
        clear(); N.calls = 0;
        NestTraits t((size_t)r.n, r.R);
        switch (kind) {
          case 0: { USpec a(RQ[0], t, AQ[aq], (size_t)na); u.reset(new USpec(a)); break; }
          case 1: g = SF::generate_unpruned_grid(RQ[0], t, AQ[aq], (size_t)na); break;
          case 2: { USpec a(RQ[0], t, AQ[aq], (size_t)na); g = SF::generate_grid(a); break; }
          case 3: { USpec a(RQ[0], t, AQ[aq], (size_t)na); g = SF::generate_grid(ix::create_pruned_spec(ix::PruningScheme::Robust, a)); break; }
          case 4: { USpec a(RQ[0], t, AQ[aq], (size_t)na); ps.reset(new PSpec(ix::create_pruned_spec(ix::PruningScheme::Treutler, a))); PSpec c(*ps); c = *ps; if (!(c == *ps)) N.bad |= 4; g = SF::generate_grid(c); break; }
          case 5: rp = ix::RadialFactory::generate(RQ[0], t); break;
          default: { BK b((size_t)std::max<int64_t>(1, r.n), r.R); LL l((size_t)na); prod.reset(new std::tuple<vector<pt>, vector<double>>(PT::generate(b, l))); }
        }
        calls = N.calls;
      }, clear, (kind == 3 || kind == 4) || !parts_ok(r, {Reg{0, r.n, aq, na}}));
      N.on = false; nest_check(op);
      if (!ok) return;
      res((uint64_t)calls);
      vector<double> b;
      if (u) { if (u->radial_quad != RQ[0] || u->radial_traits->npts() != (size_t)r.n || u->angular_size != (size_t)na || !u->radial_traits->compare(NestTraits((size_t)r.n, r.R))) report("nested-call-disturbs", PB(22), op, "a specification whose copying calls the library does not hold what it was given"); }
      if (rp) { RFObj f; f.p = std::move(rp); f.bits(b); f.p.reset(); check_ref(op, kR(r), b); }
      if (prod) { auto& P = std::get<0>(*prod); auto& Q = std::get<1>(*prod); BK q1((size_t)std::max<int64_t>(1, r.n), r.R); LL q2((size_t)na); bool same = P.size() == q1.npts() * q2.npts();
        for (size_t j = 0, k = 0; same && j < q2.npts(); j++) for (size_t i = 0; same && i < q1.npts(); i++, k++) { for (int d = 0; d < 3; d++) same = same && bitsof(P[k][d]) == bitsof(q1.points()[i] * q2.points()[j][d]); same = same && bitsof(Q[k]) == bitsof(q1.weights()[i] * q2.weights()[j]); }
        if (!same) report("nested-call-disturbs", PB(22), op, "a product whose combine operation calls the library differs from its parts"); }
      if (g) {
        put(g->points(), b); put(g->weights(), b);
        if (kind <= 2) check_ref(op, kU(r, aq, na), b);
        else { // the same with parameters that call nothing
          auto t = mk_traits(r); USpec a(RQ[0], *t, AQ[aq], (size_t)na); auto h = SF::generate_grid(ix::create_pruned_spec(kind == 3 ? ix::PruningScheme::Robust : ix::PruningScheme::Treutler, a));
          vector<double> c; put(h->points(), c); put(h->weights(), c); if (hash_bits(b) != hash_bits(c)) report("nested-call-disturbs", PB(22), op, "a pruned grid whose parameters call the library differs from the one whose parameters do not");
        }
      }
      rt::mix(hash_bits(b)); res(hash_bits(b)); rt::begin_op(rt::Fault{}, BUD); clear(); rt::end_op();
      post(W, op, {}, nullptr); break;
    }
    case O_VEC: { // a client's growing containers of library objects (uses the noexcept moves)
      auto* s = as<ProdObj>(W, op.src, K_PROD); auto* g = as<GObj>(W, op.src, K_GRID);
      size_t k = 2 + (size_t)op.a[0] % 4;
      if (s) { Snap before, sn2; s->snap(before); struct H { vector<PQ>* v = nullptr; ~H() { delete v; } } h;
        auto* hv = &h; hv->v = new vector<PQ>();
        if (!attempt(W, op, [&] { try { hv->v->clear(); for (size_t i = 0; i < k; i++) hv->v->push_back(*s->p); } catch (...) { hv->v->clear(); hv->v->shrink_to_fit(); throw; } }, nothing)) { rt::begin_op(rt::Fault{}, BUD); hv->v->clear(); hv->v->shrink_to_fit(); rt::end_op(); return; }
        for (auto& x : *hv->v) { sn2.clear(); ProdObj t; t.p = &x; t.snap(sn2); t.p = nullptr; if (sn2 != before) report("moved-differs", PB(8) | PB(2) | PB(12), op, "a product relocated by a growing vector differs from its source"); }
        rt::begin_op(rt::Fault{}, BUD); hv->v->clear(); hv->v->shrink_to_fit(); rt::end_op();
        post(W, op, {}, nullptr);
      } else if (g && g->t == tops<ix::SphericalQuadrature<BK, LL>>()) {
        using T = ix::SphericalQuadrature<BK, LL>; Snap before, sn2; g->snap(before);
        auto* v = new vector<T>();
        bool ok = attempt(W, op, [&] { try { v->clear(); for (size_t i = 0; i < k; i++) v->push_back(static_cast<const T&>(*g->g)); } catch (...) { v->clear(); v->shrink_to_fit(); throw; } }, nothing);
        if (ok) for (auto& x : *v) { bool oo; string e = check_grid(x, *g->m, oo); if (!e.empty()) report("moved-differs", PB(8) | PB(2) | PB(12) | PB(7), op, "a grid relocated by a growing vector: " + e); }
        rt::begin_op(rt::Fault{}, BUD); v->clear(); v->shrink_to_fit(); rt::end_op(); delete v;
        if (ok) post(W, op, {}, nullptr);
      } else rt::shm->stat[rt::S_OPS_SKIPPED]++;
      break;
    }
    case O_BAD: { struct B { ~B() { IN_BAD = false; } } b; if (alike()) IN_BAD = true; do_bad(W, op); break; }
    case O_THROW: do_throw(W, op); break;
    case O_QUIET: quiet::exec(W, op); break;
    case O_QSHARE: quiet::share(W, op); break;
    case O_QLOOK: quiet::look(W, op); break;
    case O_MINI: if (op.a[0] & 1) mini<long double>(W, op); else mini<float>(W, op); break;
    default: break;
  }
}

// ------------------------------------------------------ unserviceable requests

struct ThrowTraits : ix::RadialTraits { // a client's parameters whose copying fails
  int how; explicit ThrowTraits(int h) : how(h) {}
  std::unique_ptr<ix::RadialTraits> clone() const override { if (how == 0) throw std::runtime_error("simulated client failure"); if (how == 1) throw std::bad_alloc(); return nullptr; }
  size_t npts() const override { return 5; }
  bool compare(const ix::RadialTraits& o) const noexcept override { return dynamic_cast<const ThrowTraits*>(&o) != nullptr; }
};
static void spec_words(const ix::PrunedSphericalGridSpecification& p, Snap& s) {
  s.clear(); s.push_back((uint64_t)p.radial_quad); s.push_back((uint64_t)(uintptr_t)p.radial_traits.get()); s.push_back(p.radial_traits ? p.radial_traits->npts() : 0);
  for (auto& r : p.pruning_regions) { s.push_back(r.idx_st); s.push_back(r.idx_en); s.push_back((uint64_t)r.angular_quad); s.push_back(r.angular_size); }
}
// regions that tile n shells, k of them, of one angular scheme
static vector<ix::PruningRegion> tile(rt::Rng& g, size_t n, size_t k, int aq) {
  static const size_t A[4][3] = {{72, 132, 192}, {14, 26, 50}, {6, 14, 26}, {3, 14, 26}};
  vector<ix::PruningRegion> v; size_t st = 0;
  for (size_t i = 0; i < k; i++) { size_t en = i + 1 == k ? n : st + 1 + g.below(n - st - (k - i - 1)); v.push_back(ix::PruningRegion{st, en, AQ[aq], A[aq][g.below(3)]}); st = en; }
  return v;
}
static void do_bad(World& W, const Op& op) {
  rt::shm->stat[rt::S_BADREQ]++;
  RadP r = radp(op); int aq = (int)(op.a[2] & 3); int64_t na = op.a[3]; int kind = (int)(op.a[4] % NBAD);
  auto badr = (ix::RadialQuad)(uint32_t)op.a[5]; auto bada = (ix::AngularQuad)(uint32_t)op.a[5];
  for (int i = 0; i < 4; i++) { if (badr == RQ[i]) badr = (ix::RadialQuad)0x7777; if (bada == AQ[i]) bada = (ix::AngularQuad)0x7777; }
  std::shared_ptr<void> keep; // whatever a wrongly accepted request returned
  uint64_t l0 = rt::live_bytes(); (void)l0;
  RadP other = r; other.rq = (r.rq + 1 + (int)(op.a[5] & 1)) & 3;
  bool unsup = ref_throws(kA(aq, na)) || !getref(kA(aq, na));
  const Ref* ra = getref(kA(aq, na));
  string what;
  auto run = [&](const char* d, auto body) {
    what = d;
    bool ok = attempt(W, op, body, nothing, true);
    res(kind); res(ok);
    rt::shm->stat[rt::S_P0 + 10 + kind]++;
    if (ok) report("unserviceable-request-served", PB(11), op, string(d) + sf(" (radial %d, other %d, angular %d size %lld)", r.rq, other.rq, aq, (long long)na));
  };
  auto ir = ix_regs(regs_of(op));
  // sizes known (from the fresh process) to be offered are not bad requests
  bool na_bad = !(ra && ra->status == 1 && ra->n > 0) || op.a[0] / 4 == 1; (void)unsup;
  if (op.a[0] >= 4) na_bad = true;
  switch (kind) {
    case 0: run("unknown radial scheme value, radial factory", [&] { auto t = mk_traits(r); keep = ix::RadialFactory::generate(badr, *t); }); break;
    case 1: run("unknown angular scheme value, angular factory", [&] { keep = ix::S2Factory::generate(bada, (size_t)na); }); break;
    case 2: run("unknown radial scheme value, grid", [&] { auto t = mk_traits(r); keep = ix::SphericalGridFactory::generate_unpruned_grid(badr, *t, AQ[2], 6); }); break;
    case 3: run("unknown angular scheme value, grid", [&] { auto t = mk_traits(r); keep = ix::SphericalGridFactory::generate_unpruned_grid(RQ[r.rq], *t, bada, 6); }); break;
    case 4: run("unknown radial scheme value, pruned grid", [&] { auto t = mk_traits(r); vector<ix::PruningRegion> g = {{0, (size_t)r.n, AQ[2], 6}}; keep = ix::SphericalGridFactory::generate_pruned_grid(badr, *t, g); }); break;
    case 5: run("unknown angular scheme value, pruned grid", [&] { auto t = mk_traits(r); vector<ix::PruningRegion> g = {{0, (size_t)r.n, bada, 6}}; keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, g); }); break;
    case 6: run("radial parameters of another scheme, radial factory", [&] { auto t = mk_traits(other); keep = ix::RadialFactory::generate(RQ[r.rq], *t); }); break;
    case 7: run("radial parameters of another scheme, grid", [&] { auto t = mk_traits(other); keep = ix::SphericalGridFactory::generate_unpruned_grid(RQ[r.rq], *t, AQ[2], 6); }); break;
    case 8: run("radial parameters of another scheme, pruned grid", [&] { auto t = mk_traits(other); vector<ix::PruningRegion> g = {{0, (size_t)r.n, AQ[2], 6}}; keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, g); }); break;
    case 9: run("foreign radial parameters", [&] { BadRadial b; keep = ix::RadialFactory::generate(RQ[r.rq], b); }); break;
    case 10: run("no pruning regions", [&] { auto t = mk_traits(r); keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, vector<ix::PruningRegion>{}); }); break;
    case 11: { int64_t h = r.n > 1 ? r.n / 2 : 1; run("mixed angular schemes", [&] { auto t = mk_traits(r); vector<ix::PruningRegion> g = {{0, (size_t)h, AQ[2], 14}, {(size_t)h, (size_t)r.n + 1, AQ[1], 14}}; keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, g); }); break; }
    case 12: run("no radial parameters, unpruned specification", [&] { auto t = mk_traits(r); ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *t, AQ[2], 6); u.radial_traits.reset(); keep = ix::SphericalGridFactory::generate_grid(u); }); break;
    case 13: run("no radial parameters, pruned specification", [&] { ix::PrunedSphericalGridSpecification p; p.radial_quad = RQ[r.rq]; p.pruning_regions = {{0, 4, AQ[2], 6}}; keep = ix::SphericalGridFactory::generate_grid(p); }); break;
    case 14: run("no radial parameters, pruning", [&] { auto t = mk_traits(r); ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *t, AQ[2], 14); u.radial_traits.reset(); auto s = op.a[5] % 3 == 0 ? ix::PruningScheme::Unpruned : op.a[5] % 3 == 1 ? ix::PruningScheme::Robust : ix::PruningScheme::Treutler; auto p = ix::create_pruned_spec(s, u); (void)p; }); break;
    case 15: run("no radial parameters, scheme called directly", [&] { auto t = mk_traits(r); ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *t, AQ[2], 14); u.radial_traits.reset(); auto p = op.a[5] & 1 ? ix::robust_psi4_pruning_scheme(u) : ix::treutler_pruning_scheme(u); (void)p; }); break;
    case 16: if (na_bad) run("angular size not offered, angular factory", [&] { keep = ix::S2Factory::generate(AQ[aq], (size_t)na); }); break;
    case 17: if (na_bad) run("angular size not offered, grid", [&] { auto t = mk_traits(r); keep = ix::SphericalGridFactory::generate_unpruned_grid(RQ[r.rq], *t, AQ[aq], (size_t)na); }); break;
    case 18: if (na_bad) run("angular size not offered, pruned grid", [&] { auto t = mk_traits(r); vector<ix::PruningRegion> g = {{0, (size_t)r.n, AQ[aq], (size_t)na}}; keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, g); }); break;
    case 19: if (na_bad) run("angular size not offered, direct construction", [&] { switch (aq) { case 0: { AB q((size_t)na); break; } case 1: { DE q((size_t)na); break; } case 2: { LL q((size_t)na); break; } default: { WO q((size_t)na); } } }); break;
    case 20: run("unknown angular scheme value, pruning", [&] { auto t = mk_traits(r); ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *t, bada, 14); auto p = ix::create_pruned_spec(op.a[5] & 1 ? ix::PruningScheme::Robust : ix::PruningScheme::Treutler, u); (void)p; }); break;
    case 21: run("unknown radial scheme value, parameters", [&] { auto t = ix::make_radial_traits(badr, (size_t)r.n, r.R); (void)t; }); break;
    case 22: run("parameters the scheme does not take", [&] { auto t = op.a[5] & 1 ? ix::make_radial_traits(RQ[r.rq % 3], (size_t)r.n, r.R, 0.5, 1.0, 2.0) : ix::make_radial_traits(RQ[r.rq], string("x")); (void)t; }); break;
    case 23: { Obj* o = get(W, op.src); if (o && !o->zombie && o->kind == K_Q) { auto* q = static_cast<QBase*>(o); run("point index past the end", [&] { q->oob((size_t)op.a[5] & 1, q->n() + ((size_t)op.a[5] & 2 ? 0 : (size_t)op.a[5] & 4 ? ~size_t(0) - q->n() : (size_t)op.a[5] >> 3 & 0xffff)); }); } break; }
    case 24: run("impossible angular size", [&] { keep = ix::S2Factory::generate(AQ[aq], op.a[5] & 1 ? ~size_t(0) : (size_t(1) << 40)); }); break;
    case 25: run("impossible radial size", [&] { RadP h = r; auto t = ix::make_radial_traits(RQ[h.rq], op.a[5] & 1 ? ~size_t(0) - 7 : (size_t(1) << 40), h.R); keep = ix::RadialFactory::generate(RQ[h.rq], *t); }); break;
    case 26: case 27: case 28: case 29: case 30: case 31: case 32: case 33: case 34: case 35: { // one thing wrong somewhere in a longer region list
      rt::Rng g((uint64_t)op.a[5] * 77 + kind); size_t k = 2 + g.below(5); RadP h = r; h.n = std::max<int64_t>(h.n, (int64_t)k + 2); int other_aq = (aq + 1 + (int)g.below(3)) & 3;
      auto v = tile(g, (size_t)h.n, k, aq); const char* d = ""; size_t at = g.below(k); bool via_spec = g.chance(0.4);
      switch (kind) {
        case 26: case 27: { static const size_t A[4] = {72, 14, 6, 3}; size_t m = 1 + g.below((1u << k) - 2); for (size_t i = 0; i < k; i++) if (m >> i & 1) { v[i].angular_quad = AQ[other_aq]; v[i].angular_size = A[other_aq]; } if (kind == 27) for (auto& x : v) x.angular_size = aq == 0 || other_aq == 0 ? x.angular_size : 26; d = "mixed angular schemes among several regions"; break; }
        case 28: v[at].angular_quad = bada; d = "unknown angular scheme value in one of several regions"; break;
        case 29: { static const size_t B[4][4] = {{0, 73, 71, 6}, {0, 15, 6, 1}, {0, 15, 7, 27}, {0, 15, 4, 7}}; v[at].angular_size = B[aq][g.below(4)]; d = "angular size not offered in one of several regions"; break; }
        case 30: v[0].idx_st = 1 + g.below(v[0].idx_en); if (v[0].idx_st >= v[0].idx_en) { v.erase(v.begin()); } d = "regions start after the first shell"; break;
        case 31: { size_t i = 1 + g.below(k - 1); v[i].idx_st++; if (v[i].idx_st >= v[i].idx_en) v.erase(v.begin() + i); d = "gap between regions"; break; }
        case 32: { size_t i = 1 + g.below(k - 1); v[i].idx_st--; d = "overlapping regions"; break; }
        case 33: v.back().idx_en--; if (v.back().idx_st >= v.back().idx_en) v.pop_back(); d = "regions end before the last shell"; break;
        case 34: { size_t i = g.below(k - 1); std::swap(v[i], v[i + 1]); d = "regions out of order"; break; }
        case 35: { size_t i = g.below(k); v.insert(v.begin() + i, v[i]); d = "a region listed twice"; break; }
      }
      run(d, [&] {
        auto t = mk_traits(h);
        if (via_spec) { ix::PrunedSphericalGridSpecification p(RQ[h.rq], *t, v); keep = ix::SphericalGridFactory::generate_grid(p); }
        else keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[h.rq], *t, v); });
      break;
    }
    case 36: case 37: case 38: { // typed grids from a region list that is not (or not for this radial rule) finished
      int64_t n = std::max<int64_t>(4, std::min<int64_t>(r.n, 60));
      run(kind == 36 ? "empty region list" : kind == 37 ? "unfinished region list" : "region list of another radial rule", [&] {
        BK q((size_t)n, 1.0), q2((size_t)(n + 1 + (op.a[5] & 3)), 1.0);
        ix::RadialGridPartition<LL> p;
        if (kind != 36) { p.add_quad(q, 0, LL(6)); if (op.a[5] & 4) p.add_quad(q, 2, LL(14)); }
        if (kind == 38) p.finalize(op.a[5] & 8 ? q : q2);
        const auto& cp = p;
        keep = std::make_shared<ix::PrunedSphericalQuadrature<BK, LL>>(kind == 38 && (op.a[5] & 8) ? q2 : q, cp); });
      break;
    }
    case 39: { // a region start out of place: refused, and the list is as it was
      int64_t n = std::max<int64_t>(5, std::min<int64_t>(r.n, 60)); bool same = true;
      run("region start out of range", [&] {
        BK q((size_t)n, 1.0); ix::RadialGridPartition<LL> p; size_t cnt = 0;
        if (op.a[5] % 4) { p.add_quad(q, 0, LL(6)); cnt = 1; } if (op.a[5] % 4 == 2) { p.add_quad(q, 2, LL(14)); cnt = 2; }
        size_t bad = cnt == 0 ? 1 + ((size_t)op.a[5] >> 4) % 5 : (op.a[5] & 4) ? (size_t)n + ((size_t)op.a[5] >> 4) % 3 : cnt == 1 ? 0 : ((size_t)op.a[5] >> 4) % 3;
        try { p.add_quad(q, bad, LL(26)); } catch (...) {
          if (p.partition_idx().size() != cnt) same = false;
          if (cnt) { p.finalize(q); const auto& cp = p; ix::PrunedSphericalQuadrature<BK, LL> g(q, cp); size_t want = cnt == 1 ? (size_t)n * 6 : 2 * 6 + ((size_t)n - 2) * 14; if (g.npts() != want) same = false; }
          throw; } });
      if (!same) report("changed-by-failed-call", PB(3) | PB(11) | PB(13), op, "a refused region start changed the region list");
      break;
    }
    case 40: { int64_t n = std::max<int64_t>(3, std::min<int64_t>(r.n, 60));
      run("subrange out of range", [&] { BK q((size_t)n, 1.0); size_t x = ((size_t)op.a[5] >> 4) % (size_t)n; std::pair<size_t, size_t> b = op.a[5] % 4 == 0 ? std::make_pair(x, (size_t)n + 1 + x) : op.a[5] % 4 == 1 ? std::make_pair(x, x) : op.a[5] % 4 == 2 ? std::make_pair(x + 1, x) : std::make_pair((size_t)n + x, (size_t)n + x + 1); const BK& cq = q; ix::SubQuadrature<BK> sq(b, cq); volatile size_t y = sq.npts(); (void)y; }); break; }
    case 41: run("one-dimensional rule of too few points", [&] { volatile size_t y = 0; if (op.a[5] & 1) { GLO_t q((size_t)(op.a[5] >> 1 & 1)); y = q.npts(); } else { UT_t q((size_t)(op.a[5] >> 1 & 1), 0., 1.); y = q.npts(); } (void)y; }); break;
    case 42: { // a specification whose parameters cannot be copied: assignment fails and leaves the target alone
      rt::Rng g((uint64_t)op.a[5]); ix::PrunedSphericalGridSpecification a, b; bool same = true;
      { auto t = mk_traits(r); a = ix::PrunedSphericalGridSpecification(RQ[r.rq], *t, tile(g, 9, 3, 2)); }
      b.radial_quad = RQ[other.rq]; b.radial_traits.reset(new ThrowTraits(op.a[5] & 1)); b.pruning_regions = tile(g, 7, 2, 3);
      Snap s0, s1; spec_words(a, s0);
      run("assignment from a specification whose parameters cannot be copied", [&] { const auto& cb = b; a = cb; });
      spec_words(a, s1); same = s0 == s1;
      if (!same) report("changed-by-failed-call", PB(3) | PB(11), op, "a failed assignment changed the specification assigned to");
      break;
    }
    case 43: { // parameters whose copy is null
      run("parameters that copy to nothing", [&] { ThrowTraits t(2); if (op.a[5] & 1) { ix::UnprunedSphericalGridSpecification u(RQ[r.rq], t, AQ[2], 6); keep = ix::SphericalGridFactory::generate_grid(u); } else { ix::PrunedSphericalGridSpecification p(RQ[r.rq], t, vector<ix::PruningRegion>{{0, 5, AQ[2], 6}}); keep = ix::SphericalGridFactory::generate_grid(p); } });
      break;
    }
    case 44: run("radial parameters of another scheme, specification", [&] { auto t = mk_traits(other); if (op.a[5] & 1) { ix::UnprunedSphericalGridSpecification u(RQ[r.rq], *t, AQ[2], 14); if (op.a[5] & 2) { auto p = ix::create_pruned_spec(op.a[5] & 4 ? ix::PruningScheme::Robust : ix::PruningScheme::Unpruned, u); keep = ix::SphericalGridFactory::generate_grid(p); } else keep = ix::SphericalGridFactory::generate_grid(u); } else { ix::PrunedSphericalGridSpecification p(RQ[r.rq], *t, vector<ix::PruningRegion>{{0, (size_t)r.n, AQ[2], 6}}); keep = ix::SphericalGridFactory::generate_grid(p); } }); break;
    case 45: run("impossible angular size in one region", [&] { auto t = mk_traits(r); vector<ix::PruningRegion> g = {{0, (size_t)r.n, AQ[aq], op.a[5] & 1 ? ~size_t(0) : op.a[5] & 2 ? (size_t(1) << 32) + 6 : (size_t(1) << 40)}}; keep = ix::SphericalGridFactory::generate_pruned_grid(RQ[r.rq], *t, g); }); break;
    case 46: run("radial parameters of no scheme, specification", [&] { BadRadial b; ix::UnprunedSphericalGridSpecification u(RQ[r.rq], b, AQ[2], 14); if (op.a[5] & 1) { auto p = ix::create_pruned_spec(op.a[5] & 2 ? ix::PruningScheme::Robust : ix::PruningScheme::Unpruned, u); keep = ix::SphericalGridFactory::generate_grid(p); } else keep = ix::SphericalGridFactory::generate_grid(u); }); break;
    case 47: run("angular size congruent to an offered one", [&] { static const size_t A[4] = {72, 14, 6, 3}; keep = ix::S2Factory::generate(AQ[aq], A[aq] + (size_t(1) << (32 + (op.a[5] & 15)))); }); break;
  }
  keep.reset();
}

// ------------------------------------------------------------------- execution
// ------------------------------------------- client code that throws
static void do_throw(World& W, const Op& op) {
  RadP r = radp(op); r.rq = 0; int aq = (int)(op.a[2] & 3); int64_t na = op.a[3]; int kind = (int)(op.a[4] % 14), xk = (int)(op.a[5] % NCE);
  if (kind == 13 && W.task >= 0) kind = 1;
  if (kind == 7 || kind == 8 || kind == 9) { aq = 2; if (!part_ok(kA(2, na))) na = 6; }
  if (!parts_ok(r, {Reg{0, r.n, aq, na}})) { rt::shm->stat[rt::S_OPS_SKIPPED]++; return; }
  using USpec = ix::UnprunedSphericalGridSpecification; using PSpec = ix::PrunedSphericalGridSpecification; using SF = ix::SphericalGridFactory;
  using PT = ix::quadrature_traits<ix::ProductQuadrature<ThOp, BK, LL>>;
  Thr& T = THR[rt::task_id()]; size_t n = (size_t)r.n;
  // what the client has had for a while
  ThTraits t(n, r.R); ThOwn own(n, r.R); auto plain = mk_traits(r);
  USpec a(RQ[0], t, AQ[aq], (size_t)na), a2(RQ[1], ix::MurrayHandyLamingRadialTraits<2>(3, 1.0), AQ[3], 3), ao(RQ[0], own, AQ[aq], (size_t)na);
  PSpec p, p2; p2.radial_quad = RQ[0]; p2.radial_traits = t.clone(); p2.pruning_regions = ix_regs({Reg{0, (int64_t)n, aq, na}});
  p.radial_quad = RQ[1]; p.radial_traits.reset(new ix::BeckeRadialTraits(2, 1.0)); p.pruning_regions = ix_regs({Reg{0, 2, 3, 3}});
  ThGrid grid(BK(n, r.R), LL((size_t)(aq == 2 ? na : 6))); Batcher bat(5, std::make_shared<ThGrid>(grid));
  vector<double> bat0; put(bat.points(), bat0); put(bat.weights(), bat0);
  Snap p0, p20; spec_words(p, p0); spec_words(p2, p20); const void* a2t = a2.radial_traits.get();
  std::shared_ptr<Base> g; std::unique_ptr<USpec> u; std::unique_ptr<PSpec> ps; decltype(ix::RadialFactory::generate(RQ[0], std::declval<const ix::RadialTraits&>())) rp;
  std::unique_ptr<std::tuple<vector<pt>, vector<double>>> prod; std::unique_ptr<Batcher> bb; std::unique_ptr<ThRule> rule; std::unique_ptr<ThQ> thq;
  auto clear = [&] { g.reset(); u.reset(); ps.reset(); rp.reset(); prod.reset(); bb.reset(); rule.reset(); thq.reset(); };
  auto body = [&] {
    clear();
    switch (kind) {
      case 0: u.reset(new USpec(RQ[0], t, AQ[aq], (size_t)na)); break;
      case 1: g = SF::generate_unpruned_grid(RQ[0], t, AQ[aq], (size_t)na); break;
      case 2: g = SF::generate_grid(a); break;
      case 3: { ps.reset(new PSpec(ix::create_pruned_spec(ix::PruningScheme::Robust, a))); g = SF::generate_grid(*ps); break; }
      case 4: { const PSpec& c = p2; p = c; break; }
      case 5: rp = ix::RadialFactory::generate(RQ[0], t); break;
      case 6: { const USpec& c = a; u.reset(new USpec(c)); USpec d(*u); u.reset(new USpec(d)); break; }
      case 7: prod.reset(new std::tuple<vector<pt>, vector<double>>(PT::generate(BK(n, r.R), LL((size_t)na)))); break;
      case 8: bb.reset(new Batcher(bat.clone())); break;
      case 9: { thq.reset(new ThQ(n, r.R)); g = std::make_shared<ix::SphericalQuadrature<ThQ, LL>>(*thq, LL((size_t)na)); break; }
      case 10: rule.reset(new ThRule(ThMap(n, r.R))); break;
      case 11: ps.reset(new PSpec(ix::create_pruned_spec(op.d[3] > 0.5 ? ix::PruningScheme::Treutler : ix::PruningScheme::Unpruned, ao))); break;
      case 12: { auto v = ix_regs({Reg{0, (int64_t)n, aq, na}}); ps.reset(new PSpec(RQ[0], own, v)); PSpec q(*ps); *ps = q; break; }
      default: { auto h = SF::generate_unpruned_grid(RQ[0], *plain, AQ[aq], (size_t)na); bb.reset(new Batcher(3, h)); }
    }
  };
  if (kind == 13) { std::cout.clear(); std::cout.exceptions(std::ios::badbit); }
  struct Off { Thr& t; bool log; ~Off() { t.on = t.thrown = false; if (log) { std::cout.exceptions(std::ios::goodbit); std::cout.clear(); } } } off{T, kind == 13};
  bool ok = false; int thrown = 0;
  for (int k = 1; k < 4000 && !ok; k += k < 24 ? 1 : 1 + k / 3) {
    uint64_t live[4]; live[0] = rt::live_bytes();
    for (int again = 0; again < 3 && !ok; again++) {
      T = Thr(); T.on = true; T.log = kind == 13; T.n = k; T.kind = xk; T.id = 1000 + k;
      auto guarded = [&] {
        try { body(); }
        catch (const CE_rt& e) { T.same = xk == 0 && e.id == T.id && typeid(e) == typeid(CE_rt); throw; } catch (const CE_oor& e) { T.same = xk == 1 && e.id == T.id; throw; } catch (const CE_ba& e) { T.same = xk == 2 && e.id == T.id; throw; }
        catch (const CE_bc& e) { T.same = xk == 3 && e.id == T.id; throw; } catch (const CE_any& e) { T.same = xk == 4 && e.id == T.id; throw; } catch (int i) { T.same = xk == 5 && i == T.id; throw; }
      };
      if (kind == 13) std::cout.clear();
      Res q = attempt1(op, guarded, rt::Fault{}, BUD);
      T.on = false; bool fired = T.thrown; T.thrown = false; rt::mix(q.ok); rt::mix((uint64_t)T.calls);
      if (q.ok && fired) report("client-exception-swallowed", PB(25), op, sf("client code called by the library threw at its %d%s call, but the caller never saw the exception (request kind %d)", k, k == 1 ? "st" : "th", kind));
      if (q.ok) { ok = true; res((uint64_t)T.calls); break; }
      if (!fired) { report("unexpected-exception", ALLP, op, "valid request, nothing thrown by client code, but it threw: " + q.what); return; }
      thrown++;
      if (!T.same) report("client-exception-replaced", PB(25), op, sf("client code called by the library threw at its %d%s call; another exception reached the caller (request kind %d): %s", k, k == 1 ? "st" : "th", kind, q.what.c_str()));
      rt::begin_op(rt::Fault{}, BUD); clear(); rt::end_op();
      check_world(W, op, "changed-by-client-exception", PB(25), {}, nullptr);
      Snap s; spec_words(p, s); bool same = s == p0; spec_words(p2, s); same = same && s == p20;
      same = same && a2.radial_traits.get() == a2t && a2.radial_quad == RQ[1] && a2.angular_quad == AQ[3] && a2.angular_size == 3 && a2t && a2.radial_traits->npts() == 3;
      same = same && a.radial_traits && a.radial_traits->compare(t) && a.radial_quad == RQ[0] && a.angular_size == (size_t)na;
      vector<double> b1; put(bat.points(), b1); put(bat.weights(), b1); same = same && hash_bits(b1) == hash_bits(bat0) && bat.max_batch_size() == 5;
      if (!same) report("changed-by-client-exception", PB(25), op, sf("an object that existed before changed when client code threw at its %d%s call (request kind %d)", k, k == 1 ? "st" : "th", kind));
      live[again + 1] = rt::live_bytes();
      if (W.task >= 0 || live[again + 1] <= live[again]) break;
      if (again == 2) report("leak:client-exception", PB(25), op, sf("each call in which client code throws at its %d%s call loses %llu bytes (request kind %d)", k, k == 1 ? "st" : "th", kind, (unsigned long long)(live[3] - live[2])));
    }
  }
  if (thrown) rt::shm->stat[rt::S_P0 + 58]++;
  if (!ok) { rt::shm->stat[rt::S_OPS_SKIPPED]++; rt::begin_op(rt::Fault{}, BUD); clear(); rt::end_op(); return; }
  rt::shm->stat[rt::S_CHECKS]++;
  auto wrong = [&](const char* what) { report("wrong-after-client-exception", PB(25), op, sf("%s, asked for again after client code had thrown %d times, is not what it should be (request kind %d)", what, thrown, kind)); };
  auto near = [&](const vector<double>& x, const vector<double>& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!closed(x[i], y[i], 256 * EPS * std::fabs(y[i]) + 1e-300)) return false; return true; };
  vector<double> b, c; auto bits = [&](const auto& q) { vector<double> v; put(q.points(), v); put(q.weights(), v); return v; };
  if (u && !(u->radial_quad == RQ[0] && u->radial_traits->compare(t) && u->angular_quad == AQ[aq] && u->angular_size == (size_t)na)) wrong("a specification");
  if (g) b = bits(*g);
  if (kind == 1 || kind == 2) { const Ref* f = getref(kU(r, aq, na)); if (f && f->status == 1 && f->hash != hash_bits(b)) wrong("a grid"); }
  if (kind == 3) { auto h = SF::generate_grid(ix::create_pruned_spec(ix::PruningScheme::Robust, USpec(RQ[0], *plain, AQ[aq], (size_t)na))); if (hash_bits(bits(*h)) != hash_bits(b)) wrong("a pruned grid"); }
  if (kind == 4 && !(p == p2)) wrong("an assigned pruned specification");
  if (rp) { RFObj f; f.p = std::move(rp); f.bits(b); f.p.reset(); const Ref* e = getref(kR(r)); if (e && e->status == 1 && e->hash != hash_bits(b)) wrong("a radial rule"); }
  if (prod || kind == 9) { c = bits(ix::SphericalQuadrature<BK, LL>(BK(n, r.R), LL((size_t)na))); if (prod) { put(std::get<0>(*prod), b); put(std::get<1>(*prod), b); for (size_t i = 0; i < n * (size_t)na && i + 3 * n * (size_t)na < b.size() && i + 3 * n * (size_t)na < c.size(); i++) b[i + 3 * n * (size_t)na] = c[i + 3 * n * (size_t)na]; } if (!near(b, c)) wrong("a product"); }
  if (kind == 8) { if (hash_bits(bits(*bb)) != hash_bits(bat0) || bb->nbatches() != bat.nbatches()) wrong("a cloned batcher"); }
  if (rule) { b = bits(*rule); if (!near(b, bits(BK(n, r.R)))) wrong("a client's radial rule"); }
  if (kind == 11 && ps) { auto h = ix::create_pruned_spec(op.d[3] > 0.5 ? ix::PruningScheme::Treutler : ix::PruningScheme::Unpruned, USpec(RQ[0], *plain, AQ[aq], (size_t)na)); if (!(h.pruning_regions == ps->pruning_regions) || !ps->radial_traits || !ps->radial_traits->compare(own)) wrong("a pruned specification"); }
  if (kind == 12 && !(ps->pruning_regions.size() == 1 && ps->radial_traits->compare(own))) wrong("a pruned specification");
  if (kind == 13) check_batches(op, *bb, 3);
  rt::mix(hash_bits(b)); res(hash_bits(b));
  rt::begin_op(rt::Fault{}, BUD); clear(); rt::end_op();
  post(W, op, {}, nullptr);
}

// What a call may cost.  The size of a job is what the objects involved hold (in
// 8-byte words) and the number of radial points asked for.
static uint64_t op_size(World& W, const Op& op) {
  auto of = [&](int k) -> uint64_t {
    Obj* o = get(W, k); if (!o || o->zombie) return 0;
    World& V = k >= 100 ? *W.shared : W; uint64_t n = V.s[k % 100].last.size();
    switch (o->kind) { case K_USPEC: n += 8 * (uint64_t)(static_cast<USObj*>(o)->rp.n + static_cast<USObj*>(o)->na); break; case K_PSPEC: n += 8 * (uint64_t)static_cast<PSObj*>(o)->rp.n; for (auto& g : static_cast<PSObj*>(o)->regs) n += 8 * (uint64_t)std::max<int64_t>(0, g.na); break; case K_RGP: n += 8 * (uint64_t)static_cast<RgpBase*>(o)->rp.n; break; case K_TRAITS: n += 8 * (uint64_t)static_cast<TrObj*>(o)->rp.n; break; default: break; }
    return n;
  };
  uint64_t n = of(op.src) + of(op.src2) + of(op.dst);
  switch (op.code) { case O_RAD: case O_PRIM: case O_UGRID: case O_PGRID: case O_USPEC: case O_PSPECV: case O_RGPNEW: case O_RGPVAR: case O_TRAITS: n += 8 * (uint64_t)std::max<int64_t>(0, op.a[1]); break; default: break; }
  switch (op.code) { case O_BAD: n += 8 * (uint64_t)std::max<int64_t>(0, op.a[1]) + 50000; break; case O_ANG: case O_UGRID: case O_USPEC: case O_RGPADD: n += 8 * (uint64_t)std::max<int64_t>(0, std::min<int64_t>(op.a[3], 16000)); break; case O_PGRID: case O_PSPECV: for (size_t i = 3; i < op.v.size(); i += 4) n += 8 * (uint64_t)op.v[i]; break; case O_RGPVAR: for (size_t i = 3; i < op.v.size(); i++) n += 8 * (uint64_t)op.v[i]; break; default: break; }
  return n;
}
static const uint64_t MEM_0 = 131072, MEM_W = 96, STACK_0 = 65536, STEP_0 = 100000, STEP_W = 60, STEP_NN = 64;
static void check_effort(const Op& op, uint64_t w) {
  if (op.code == O_VEC || op.code == O_LOCALE) return;
  rt::shm->stat[rt::S_CHECKS]++;
  if (getenv("SIM_MEASURE")) { static FILE* mf = fopen(getenv("SIM_MEASURE"), "a"); fprintf(mf, "%s%s %lld %lld %llu %llu %llu %llu\n", code_name[op.code], op.code == O_BATCH && MEAS.known ? "*" : "", (long long)op.a[0], (long long)op.a[1], (unsigned long long)w, (unsigned long long)MEAS.peak, (unsigned long long)MEAS.stack, (unsigned long long)MEAS.steps); fflush(mf); }
  if (MEAS.peak > MEM_0 + MEM_W * w) report("effort:memory", PB(27), op, sf("held %llu bytes more than before while at work on objects of %llu bytes", (unsigned long long)MEAS.peak, (unsigned long long)w * 8));
  if (MEAS.stack > STACK_0) report("effort:stack", PB(27), op, sf("used %llu bytes of stack", (unsigned long long)MEAS.stack));
  if (op.code == O_BATCH) { // on edited points the number of refinements depends on how they lie: property 6
    if (MEAS.known && MEAS.steps > 2 * STEP_0 + 400 * w) report("effort:steps", PB(27), op, sf("took %llu steps over objects of %llu bytes", (unsigned long long)MEAS.steps, (unsigned long long)w * 8));
    return;
  }
  uint64_t nn = op.code == O_RAD || op.code == O_PRIM || op.code == O_UGRID || op.code == O_PGRID || op.code == O_RGPNEW || op.code == O_RGPVAR ? (uint64_t)op.a[1] * (uint64_t)op.a[1] : 0;
  if (MEAS.steps > STEP_0 + STEP_W * w + STEP_NN * nn) report("effort:steps", PB(27), op, sf("took %llu steps over objects of %llu bytes", (unsigned long long)MEAS.steps, (unsigned long long)w * 8));
}

static void run_list(World& W, const Plan& p, int task) {
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (p.ops[i].task != task) continue;
    rt::note_cur((int64_t)i, p.ops[i].code);
    rt::mix(i * 64 + p.ops[i].code);
    uint64_t s0 = PROP == 27 ? op_size(W, p.ops[i]) : 0; MEAS.peak = MEAS.stack = MEAS.steps = 0; MEAS.known = false;
    exec_op(W, p.ops[i]);
    if (PROP == 27) check_effort(p.ops[i], std::max(s0, op_size(W, p.ops[i])));
    nest_check(p.ops[i]);
    { auto& x = W.s[(size_t)p.ops[i].dst % 40]; if (x.o && !x.o->zombie) { uint64_t h = x.last.size(); for (uint64_t v : x.last) h = hm(h, v); res(h); } else res(1); }
  }
}

static void need(const RefMap& have, vector<string>& out, const string& k0) { string k = inmode(k0); if (!have.count(k) && std::find(out.begin(), out.end(), k) == out.end()) out.push_back(k); }

static const RefMap* g_have;
void refs_needed(const Plan& p, vector<string>& out) {
  const RefMap& have = *g_have; FPM = p.env.fpu;
  const bool only_bad = p.prop == 24 || p.prop == 26 || p.prop == 27; // that property compares runs with each other, not with a fresh process
  struct US { RadP r; int aq; int64_t na; };
  std::map<int, US> us; // statically known specs per (task,slot)
  std::map<int, std::pair<RadP, vector<Reg>>> ps;
  auto key = [](int task, int slot) { if (task >= 100) task = -1; else if (task >= 20) task -= 20; return slot >= 100 ? (-1 * 1000 + slot - 100) : task * 1000 + slot; };
  auto want_p = [&](const std::pair<RadP, vector<Reg>>& q) { need(have, out, kR(q.first)); for (auto& x : q.second) if (x.aq >= 0) need(have, out, kA(x.aq, x.na)); need(have, out, kP(q.first, q.second)); };
  auto want_u = [&](const US& q) { need(have, out, kR(q.r)); need(have, out, kA(q.aq, q.na)); need(have, out, kU(q.r, q.aq, q.na)); };
  for (auto& o : p.ops) {
    RadP r = radp(o); int aq = (int)(o.a[2] & 3); int64_t na = o.a[3];
    if (only_bad && o.code != O_BAD) continue;
    switch (o.code) {
      case O_RAD: need(have, out, kR(r)); break;
      case O_ANG: need(have, out, kA(aq, na)); break;
      case O_PRIM: {
        int k = (int)(o.a[0] % 15); need(have, out, kQ(k, o.a[1], o.d[0], o.d[1])); break;
      }
      case O_UGRID: case O_USPEC: need(have, out, kR(r)); need(have, out, kA(aq, na)); need(have, out, kU(r, aq, na)); us[key(o.task, o.dst)] = US{r, aq, na}; break;
      case O_PGRID: case O_PSPECV: { auto g = regs_of(o); need(have, out, kR(r)); for (auto& x : g) need(have, out, kA(x.aq, x.na)); need(have, out, kP(r, g)); if (o.code == O_PSPECV) ps[key(o.task, o.dst)] = {r, g}; break; }
      case O_PSPEC: {
        auto it = us.find(key(o.task, o.src)); if (it == us.end()) break;
        int sc = (int)(o.a[0] % 5); string k = kS(sc, it->second.r, it->second.aq, it->second.na); need(have, out, k);
        auto h = have.find(inmode(k));
        if (h != have.end() && h->second.status == 1) {
          vector<Reg> g; for (size_t i = 0; i + 3 < h->second.bits.size(); i += 4) g.push_back(Reg{(int64_t)h->second.bits[i], (int64_t)h->second.bits[i + 1], (int)h->second.bits[i + 2], (int64_t)h->second.bits[i + 3]});
          for (auto& x : g) if (x.aq >= 0) need(have, out, kA(x.aq, x.na));
          need(have, out, kP(it->second.r, g));
          ps[key(o.task, o.dst)] = {it->second.r, g};
        }
        break;
      }
      case O_SPECMUT: {
        need(have, out, kA(aq, na)); need(have, out, kR(r));
        auto it = ps.find(key(o.task, o.dst)); auto iu = us.find(key(o.task, o.dst));
        if (it != ps.end()) {
          auto& g = it->second.second;
          if (o.a[4] % 2 == 0 && !g.empty()) { g[(size_t)o.a[5] % g.size()].na = na; for (auto& x : g) x.aq = aq; }
          else { int64_t n = it->second.first.n; it->second.first = r; it->second.first.n = n; }
          want_p(it->second);
        }
        if (iu != us.end()) { iu->second.aq = aq; iu->second.na = na; want_u(iu->second); }
        break;
      }
      case O_COPY: case O_ASSIGN: {
        auto it = ps.find(key(o.task, o.src)); if (it != ps.end()) { auto v = it->second; ps[key(o.task, o.dst)] = v; }
        auto iu = us.find(key(o.task, o.src)); if (iu != us.end()) { auto v = iu->second; us[key(o.task, o.dst)] = v; }
        break;
      }
      case O_RGPNEW: case O_RGPVAR: { static const int rqk[] = {0, 1, 3}; static const int aqk[] = {2, 3, 1}; int ty = (int)(o.a[4] % 3); r.rq = rqk[ty]; need(have, out, kR(r)); for (size_t i = 3; i < o.v.size(); i++) need(have, out, kA(aqk[ty], o.v[i])); break; }
      case O_RGPADD: { static const int aqk[] = {2, 3, 1}; need(have, out, kA(aqk[o.a[4] % 3], na)); break; }
      case O_THROW: { r.rq = 0; need(have, out, kA(2, 6)); need(have, out, kA(2, na)); need(have, out, kR(r)); need(have, out, kA(aq, na)); need(have, out, kU(r, aq, na)); break; }
      case O_NEST: { r.rq = 0; if (o.a[4] % 7 == 6) { aq = 2; need(have, out, kA(2, 6)); } need(have, out, kR(r)); need(have, out, kA(aq, na)); need(have, out, kU(r, aq, na)); }
      case O_LOG: if (o.v.size() >= 4) { RadP q{(int)(o.v[0] & 3), o.v[1], o.d[2], o.d[3]}; need(have, out, kU(q, (int)(o.v[2] & 3), o.v[3])); } break;
      case O_BAD: if ((o.a[4] % NBAD >= 16 && o.a[4] % NBAD <= 19) || o.a[4] % NBAD == 29) need(have, out, kA(aq, na)); break;
      default: break;
    }
  }
}
void set_ref_view(const RefMap& m) { g_have = &m; }

// The simulated process: its client's worlds live on the heap, so that they can
// outlast main() and the static objects of everything else.
struct Process {
  const Plan* p; World* S; World* T; int nt = 0; bool foreign = false; string fcls; LogBuf lb; std::streambuf* old = nullptr;
  bool fflag[8] = {false}; string fc[8];
};
static Process* PROC = nullptr;
static bool has_list(const Plan& p, int task) { for (auto& o : p.ops) if (o.task == task) return true; return false; }
static bool threaded(const Plan& p) { return p.env.race || p.env.strat != rt::ST_NONE; }
static int lowest_fd() { int fd = fcntl(0, F_DUPFD, 3); if (fd >= 0) close(fd); return fd; }

static void destroy_tasks(Process& P) { for (int t = 0; t < P.nt; t++) for (auto& x : P.T[t].s) if (x.o) { destroy_obj(x.o); x.o = nullptr; x.last.clear(); } }
static void run_threads(Process& P) {
  const Plan& p = *P.p;
  vector<std::function<void()>> fns, bye;
  for (int t = 0; t < P.nt; t++) {
    World& W = P.T[t]; W.shared = P.S; W.task = t;
    auto guarded = [&P, &p, &W, t](int list) { try { if (!P.fflag[t]) run_list(W, p, list); } catch (const Foreign& f) { P.fflag[t] = true; P.fc[t] = f.cls; } };
    fns.push_back([guarded, t] { guarded(t); });
    bye.push_back([guarded, t] { LEAVING = true; guarded(20 + t); });
  }
  rt::run_tasks(fns, bye);
  for (int t = 0; t < P.nt; t++) if (P.fflag[t]) throw Foreign{P.fc[t]};
  rt::note_cur(-1, 0);
  Op e; e.code = O_NOP;
  check_world(*P.S, e, "shared-object-changed", PB(4) | PB(8) | PB(22), {}, nullptr);
  for (int t = 0; t < P.nt; t++) { Op e2; check_world(P.T[t], e2, "private-object-changed", PB(4) | PB(8) | PB(22), {}, nullptr); }
}

// the same piece of work again and again, all its objects given back each time
static void run_rounds(Process& P) {
  const Plan& p = *P.p; int R = p.env.rounds; Op e; e.code = O_NOP;
  bool exact = !(p.env.skip & 2);
  for (auto& o : p.ops) if (o.f.kind != rt::F_NONE || o.sweep || o.code == O_LOCALE || o.code == O_LOG) exact = false;
  run_list(*P.S, p, 101);
  vector<uint64_t> mem(R), eff(R), first; vector<int> fds(R); bool inl = !threaded(p);
  for (int r = 0; r < R; r++) {
    for (size_t i = 0; i < p.ops.size() && i < 512; i++) if (p.ops[i].task != 101) rt::shm->opdig[i] = 0;
    uint64_t s0 = rt::shm->stat[rt::S_STEPS];
    if (P.nt > 0) {
      if (inl) for (int t = 0; t < P.nt; t++) { P.T[t].shared = P.S; P.T[t].task = t; run_list(P.T[t], p, t); }
      else run_threads(P);
    }
    run_list(*P.S, p, 103);
    eff[r] = rt::shm->stat[rt::S_STEPS] - s0;
    rt::note_cur(-1, O_DESTROY);
    destroy_tasks(P);
    mem[r] = rt::live_bytes(); fds[r] = lowest_fd();
    if (exact) {
      vector<uint64_t> d((uint64_t*)rt::shm->opdig, (uint64_t*)rt::shm->opdig + std::min<size_t>(512, p.ops.size()));
      if (r == 0) first = d;
      else for (size_t i = 0; i < d.size(); i++) if (d[i] != first[i]) { rt::note_cur((int64_t)i, p.ops[i].code); report("answer-changes", PB(23), p.ops[i], sf("op %zu: round %d of the same work gave another result than the first", i, r + 1)); }
    }
    rt::shm->stat[rt::S_CHECKS]++; rt::shm->stat[rt::S_P0 + 9]++;
  }
  int c[4] = {std::max(0, R / 4 - 1), R / 2 - 1, 3 * R / 4 - 1, R - 1};
  auto grows = [&](auto& v) { return R >= 8 && v[c[0]] < v[c[1]] && v[c[1]] < v[c[2]] && v[c[2]] < v[c[3]]; };
  if (grows(mem)) report("grows:memory", PB(23), e, sf("the same work done %d times: %llu bytes in use after round %d, %llu after round %d, %llu after round %d", R, (unsigned long long)mem[c[0]], c[0] + 1, (unsigned long long)mem[c[1]], c[1] + 1, (unsigned long long)mem[c[3]], R));
  if (inl && grows(eff)) report("grows:effort", PB(23), e, sf("the same work done %d times takes longer and longer: %llu steps in round %d, %llu in round %d, %llu in round %d", R, (unsigned long long)eff[c[0]], c[0] + 1, (unsigned long long)eff[c[1]], c[1] + 1, (unsigned long long)eff[c[3]], R));
  if (grows(fds)) report("grows:files", PB(23), e, sf("the same work done %d times: lowest free file descriptor %d after round %d, %d after round %d", R, fds[c[0]], c[0] + 1, fds[c[3]], R));
}

static void end_of_world(Process& P) { // everything is destroyed in a seed-dependent order
  rt::note_cur(-1, O_DESTROY);
  destroy_tasks(P); quiet::unshare();
  bool rev = P.p->seed & 1; Op e; e.code = O_DESTROY;
  for (int i = 0; i < 40; i++) { auto& x = P.S->s[rev ? 39 - i : i]; if (x.o) { destroy_obj(x.o); x.o = nullptr; x.last.clear(); check_world(*P.S, e, "changed-by-destruction", PB(8) | PB(12), {}, nullptr); } }
}
[[noreturn]] static void end_of_process(Process& P) {
  fflush(stdout); fflush(stderr);
  off_t sz = lseek(g_memfd, 0, SEEK_END);
  if (INTEGRATORXX_VERBOSITY_LEVEL == 0 && (sz > 0 || P.lb.n > 0)) {
    char buf[200] = {0}; lseek(g_memfd, 0, SEEK_SET); ssize_t k = read(g_memfd, buf, 150); (void)k;
    if (P.p->prop == 9) rt::violate("unasked-output", PB(9), string("output although diagnostics are not compiled in: ") + buf);
  }
  std::cout.rdbuf(P.old);
  rt::mix((uint64_t)sz); rt::mix(P.lb.n);
  if (P.foreign) { snprintf(rt::shm->cls, sizeof rt::shm->cls, "%s", P.fcls.c_str()); rt::shm->status = 4; _exit(0); }
  rt::shm->stat[rt::S_SIMNS] += rt::sim_now_ns() - 1700000000000000000ull < (1ull << 40) ? rt::sim_now_ns() - 1700000000000000000ull : 0;
  rt::shm->status = 1;
  _exit(0);
}

void execute(const Plan& p, const RefMap& refs) {
  REFS = &refs; FPM = p.env.fpu; PROP = p.prop; g_skip = p.env.skip; STACK_AT = (unsigned)(p.env.layout_seed % 61);
  g_memfd = memfd_create("simout", 0);
  fflush(stdout); fflush(stderr);
  int keep1 = dup(1), keep2 = dup(2); (void)keep1; (void)keep2;
  dup2(g_memfd, 1); dup2(g_memfd, 2);
  Process& P = *new Process; PROC = &P; P.p = &p; P.S = new World; P.T = new World[8];
  LOGB = &P.lb; P.old = std::cout.rdbuf(&P.lb);
  (void)std::clog;
  for (auto& o : p.ops) if (o.task >= 0 && o.task < 8) P.nt = std::max(P.nt, o.task + 1);
  rt::child_start(p.env);
  if (p.env.strat == rt::ST_REPLAY) rt::set_replay_sched(p.sched);
  try {
    if (p.env.rounds > 0) run_rounds(P);
    else {
      run_list(*P.S, p, -1);
      if (P.nt > 0) run_threads(P);
      run_list(*P.S, p, 100);
    }
    if (has_list(p, 102)) { // the client's last calls come from the destructor of one of its static objects
      rt::begin_op(rt::Fault{}, 200000000);
      exit(0);
    }
    end_of_world(P);
  } catch (const Foreign& f) { P.foreign = true; P.fcls = f.cls; }
  end_of_process(P);
}

// A static object of the client's.  This file is linked before the library, so
// its constructor runs before the library's own static objects exist and its
// destructor after they are gone.
static struct ClientStatic {
  ClientStatic() { sim_early_hook(); }
  ~ClientStatic() {
    if (!PROC || rt::shm->status != 0) return;
    Process& P = *PROC;
    rt::end_op(); EXITING = true;
    try { run_list(*P.S, *P.p, 102); end_of_world(P); } catch (const Foreign& f) { P.foreign = true; P.fcls = f.cls; }
    end_of_process(P);
  }
} client_static;
