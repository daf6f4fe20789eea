// Replay harness: runs the real code of /repo on concrete inputs and compares it with an independent reference.
// usage: harness PROPERTY SEED SECONDS [CASE]     prints FAIL <what> and exits 1 at the first disagreement.
#include <iostream>
#include <fstream>
#include <sstream>
#include <ctime>
#include <cmath>
#include <cfenv>
#include <csignal>
#include <cstring>
#include <chrono>
#include <random>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <tuple>
#include <memory>
#include <string>
#include <functional>
#include <type_traits>
#include <unordered_map>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <iterator>
#include <iomanip>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <boost/format.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/multi_array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix_sparse.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#ifdef _OPENMP
#include <omp.h>
#define VIENNACL_WITH_OPENMP
#endif
#include <viennacl/vector.hpp>
#include <viennacl/compressed_matrix.hpp>
#include <viennacl/linalg/inner_prod.hpp>
#undef VIENNACL_WITH_OPENMP
#define private public
#define main openmps_main
#include "Main.cpp"
#undef main
#undef private

using namespace OpenMps;
using std::size_t; using std::vector; using std::string;
static constexpr int DM = OpenMps::DIM;
using V3 = std::array<double, DM>;

// ---------------------------------------------------------------- reporting
static char current[1 << 16];
static const char* prop = "";
static long cases = 0;
static void die(const string& what) {
	std::ostringstream o; o << "FAIL property=" << prop << " case=" << cases << "\n" << what << "\ninput: " << current << "\n";
	const auto s = o.str();
	if (write(1, s.data(), s.size()) < 0) {}
	_exit(1);
}
static void onsig(int s) {
	const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (assertion or std::terminate)" : s == SIGFPE ? "SIGFPE (division by zero or root of a negative number)" : s == SIGALRM ? "does not end" : "signal";
	char b[256]; int k = snprintf(b, sizeof b, "FAIL property=%s case=%ld\nthe real code raised %s\ninput: ", prop, cases, n);
	if (write(1, b, k) < 0) {}
	if (write(1, current, strlen(current)) < 0) {}
	if (write(1, "\n", 1) < 0) {}
	_exit(1);
}
static void note(const string& s) { strncpy(current, s.c_str(), sizeof current - 1); }
static string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static bool close_(double a, double b, double scale) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (a == b) return true;
	return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b) + scale) + 1e-300;
}
static void same(const char* what, long i, double got, double want, double scale = 0) {
	if (!close_(got, want, scale)) die(string(what) + " of particle " + std::to_string(i) + ": got " + fmt(got) + ", expected " + fmt(want));
}

// ---------------------------------------------------------------- random
static std::mt19937_64 rng;
static double U(double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); }
static long RI(long a, long b) { return std::uniform_int_distribution<long>(a, b)(rng); }
static bool coin(double p) { return U(0, 1) < p; }

// ---------------------------------------------------------------- environments and computers
struct Cfg { double maxDt, courant, g, rho, nu, ratio, l0, eps; V3 mn, mx; };
static Cfg randomCfg(bool big = false) {
	Cfg c;
	const double ls[] = {0.01, 0.1, 1.0, 0.001};
	const double rs[] = {1.5, 2.0, 2.1, 2.4, 3.1, 1.9};
	c.l0 = ls[RI(0, 3)]; c.ratio = rs[RI(0, 5)];
	c.courant = coin(0.5) ? 0.1 : U(0.05, 0.4); c.g = coin(0.8) ? 9.8 : U(0.5, 20);
	c.rho = U(500, 1500); c.nu = coin(0.5) ? 1e-6 : U(0, 0.1);
	c.maxDt = coin(0.5) ? 0.01 : U(1e-4, 1); c.eps = 1e-7;
	for (int k = 0; k < DM; k++) {
		const double w = c.l0 * U(big ? 8 : 4, big ? 14 : 10);
		c.mn[k] = coin(0.3) ? 0 : U(-3, 3) * c.l0;
		c.mx[k] = c.mn[k] + (coin(0.3) ? c.l0 * c.ratio * (1 + 2 * c.courant) * RI(1, 4) : w);
	}
	return c;
}
static Environment makeEnv(const Cfg& c) {
#ifdef DIM3
	return Environment(c.maxDt, c.courant, c.g, c.rho, c.nu, c.ratio, c.l0, c.mn[0], c.mn[1], c.mn[2], c.mx[0], c.mx[1], c.mx[2]);
#else
	return Environment(c.maxDt, c.courant, c.g, c.rho, c.nu, c.ratio, c.l0, c.mn[0], c.mn[1], c.mx[0], c.mx[1]);
#endif
}
struct Wall {
	Vector operator()(size_t i, double t, double dt) const {
		Vector v; for (int k = 0; k < DM; k++) v[k] = 0.1 * double(i % 7) * std::cos(1.0 + k + t) + 3 * dt * (k + 1) + 0.01 * double(i);
		return v;
	}
};
static vector<std::pair<double, double>> preLog;
struct Still { static vector<Vector> at; Vector operator()(size_t i, double, double) const { return at[i]; } };
vector<Vector> Still::at;
struct Pre { void operator()(double t, double dt) const { preLog.emplace_back(t, dt); } };
static Wall wall; static Pre pre; static Still still;
using Comp = decltype(CreateComputer(0.0, std::declval<const Environment&>(), wall, pre));
using CompS = decltype(CreateComputer(0.0, std::declval<const Environment&>(), still, pre));

template<class C> auto colNspp(C& c, int) -> decltype(&c.nWithoutSpp) { return &c.nWithoutSpp; }
template<class C> vector<double>* colNspp(C&, long) { return nullptr; }
template<class C> auto colEcs(C& c, int) -> decltype(&c.ecs) { return &c.ecs; }
template<class C> vector<double>* colEcs(C&, long) { return nullptr; }
template<class C> auto colOx(C& c, int) -> decltype(&c.originalX) { return &c.originalX; }
template<class C> vector<Vector>* colOx(C&, long) { return nullptr; }
template<class C> auto colDu(C& c, int) -> decltype(&c.du) { return &c.du; }
template<class C> vector<Vector>* colDu(C&, long) { return nullptr; }

struct P { V3 x, u; double p, n; int t; };
static Particle toP(const P& q) {
	Particle r(static_cast<Particle::Type>(q.t));
	for (int k = 0; k < DM; k++) { r.X()[k] = q.x[k]; r.U()[k] = q.u[k]; }
	r.P() = q.p; r.N() = q.n;
	return r;
}
static P fromP(const Particle& q) {
	P r; for (int k = 0; k < DM; k++) { r.x[k] = q.X()[k]; r.u[k] = q.U()[k]; }
	r.p = q.P(); r.n = q.N(); r.t = static_cast<int>(q.TYPE());
	return r;
}
enum { FLU = 0, WAL = 1, DUM = 2, DIS = 3 };
struct S { vector<P> q; vector<double> nspp, ecs; vector<V3> ox; vector<vector<size_t>> nb; };
template<class C> static S snap(C& c) {
	S s;
	for (auto& p : c.particles) s.q.push_back(fromP(p));
	const size_t n = s.q.size();
	if (auto v = colNspp(c, 0)) s.nspp.assign(v->begin(), v->end());
	if (auto v = colEcs(c, 0)) s.ecs.assign(v->begin(), v->end());
	if (auto v = colOx(c, 0)) for (auto& x : *v) { V3 y; for (int k = 0; k < DM; k++) y[k] = x[k]; s.ox.push_back(y); }
	s.nb.resize(n);
	for (size_t i = 0; i < n; i++) if (s.q[i].t != DIS) {
		const size_t m = c.NeighborCount(i);
		for (size_t k = 0; k < m; k++) s.nb[i].push_back(c.Neighbor(i, k));
	}
	return s;
}
static string describe(const Cfg& c, const vector<P>& q) {
	std::ostringstream o; o << std::setprecision(17);
	o << "env{maxDt=" << c.maxDt << " courant=" << c.courant << " g=" << c.g << " rho=" << c.rho << " nu=" << c.nu << " r_eByl_0=" << c.ratio << " l_0=" << c.l0 << " min=";
	for (auto x : c.mn) o << x << ","; o << " max="; for (auto x : c.mx) o << x << ",";
	o << "} particles(type;x;u;p;n):";
	for (auto& p : q) { o << " (" << p.t << ";"; for (auto x : p.x) o << x << ","; o << ";"; for (auto x : p.u) o << x << ","; o << ";" << p.p << ";" << p.n << ")"; }
	return o.str();
}

// ---------------------------------------------------------------- scenarios
static vector<P> scenario(const Cfg& c, bool distinct = true, int kindIn = -1) {
	const int kind = kindIn >= 0 ? kindIn : (int)RI(0, 7);
	vector<P> r;
	auto mk = [&](V3 x) {
		P p; p.x = x; const double sp = coin(0.2) ? 0 : c.l0 * 20;
		for (int k = 0; k < DM; k++) p.u[k] = coin(0.1) ? 0 : U(-sp, sp);
		p.p = coin(0.3) ? 0 : U(0, 1000); p.n = U(0, 12);
		const double t = U(0, 1); p.t = t < 0.62 ? FLU : t < 0.78 ? WAL : t < 0.9 ? DUM : DIS;
		return p;
	};
	auto inside = [&] { V3 x; for (int k = 0; k < DM; k++) x[k] = U(c.mn[k], c.mx[k]); return x; };
	if (kindIn < 0 && coin(DM == 2 ? 0.04 : 0.004)) { // full cells around one point: as many neighbours as there can be
		const double nl = c.ratio * c.l0 * (1 + 2 * c.courant); const long side = (long)std::ceil(nl / c.l0) + 1; long cap = side; for (int k = 1; k < DM; k++) cap *= side;
		const long cnt = coin(0.7) ? cap : RI(1, cap);
		for (int b = 0; b < (DM == 3 ? 27 : 9); b++) for (long j = 0; j < cnt; j++) {
			const int id[3] = {b % 3 - 1, b / 3 % 3 - 1, b / 9 - 1}; V3 x;
			for (int k = 0; k < DM; k++) x[k] = c.mn[k] + (1.5 + (id[k] ? id[k] * U(0.505, 0.56) : U(-0.06, 0.06))) * nl;
			r.push_back(mk(x)); if (r.back().t == DIS || coin(0.5)) r.back().t = FLU;
		}
	} else if (kind <= 2) { // lattice block, possibly compressed and jittered
		const double sc = kind == 0 ? 1.0 : U(0.8, 1.15), ji = kind == 2 ? 0.25 : kind == 1 ? 0.02 : 0;
		int m[3] = {1, 1, 1}; for (int k = 0; k < DM; k++) m[k] = (int)RI(2, DM == 2 ? 6 : 4);
		V3 o; for (int k = 0; k < DM; k++) o[k] = c.mn[k] + (coin(0.5) ? 0 : U(0, 2) * c.l0);
		for (int a = 0; a < m[0]; a++) for (int b = 0; b < m[1]; b++) for (int d = 0; d < m[2]; d++) {
			const int id[3] = {a, b, d}; V3 x;
			for (int k = 0; k < DM; k++) x[k] = o[k] + (id[k] + (ji ? U(-ji, ji) : 0)) * c.l0 * sc;
			if (coin(0.05)) continue;
			r.push_back(mk(x));
		}
	} else if (kind == 3) { const int n = (int)RI(0, 3); for (int i = 0; i < n; i++) r.push_back(mk(inside())); }
	else if (kind == 4) { const int n = (int)RI(3, 25); for (int i = 0; i < n; i++) r.push_back(mk(inside())); }
	else if (kind == 5) { // cell boundaries, corners, outside
		const double b = c.ratio * c.l0 * (1 + c.courant * 2);
		const int n = (int)RI(1, 20);
		for (int i = 0; i < n; i++) {
			V3 x; for (int k = 0; k < DM; k++) {
				const int w = (int)RI(0, 5);
				x[k] = w == 0 ? c.mn[k] : w == 1 ? c.mx[k] : w == 2 ? c.mn[k] + b * RI(-2, 6) : w == 3 ? U(c.mn[k] - 3 * b, c.mx[k] + 3 * b) : w == 4 ? std::nextafter(c.mn[k] + b * RI(0, 3), -1e9) : U(c.mn[k], c.mx[k]); if (x[k] != 0 && std::fabs(x[k]) < 1e-300) x[k] = -1e-300;
			}
			r.push_back(mk(x));
		}
	} else if (kind == 6) { // pairs very close and clusters
		const int n = (int)RI(1, 6);
		for (int i = 0; i < n; i++) { V3 x = inside(); r.push_back(mk(x)); if (coin(0.7)) { for (int k = 0; k < DM; k++) x[k] += U(-0.5, 0.5) * c.l0; r.push_back(mk(x)); } }
	} else { // symmetric: balanced neighbourhood
		V3 o = inside(); r.push_back(mk(o));
		for (int k = 0; k < DM; k++) for (int s = -1; s <= 1; s += 2) { V3 x = o; x[k] += s * c.l0; r.push_back(mk(x)); }
	}
	if (distinct) { // pairwise distances not tiny
		vector<P> q;
		for (auto& p : r) {
			bool ok = true;
			for (auto& o : q) { double d = 0; for (int k = 0; k < DM; k++) d += (p.x[k] - o.x[k]) * (p.x[k] - o.x[k]); if (d < 1e-4 * c.l0 * c.l0) ok = false; }
			if (ok) q.push_back(p);
		}
		r = q;
	}
	std::shuffle(r.begin(), r.end(), rng);
	return r;
}
template<class C> static void add(C& c, const vector<P>& q) { vector<Particle> v; for (auto& p : q) v.push_back(toP(p)); c.AddParticles(std::move(v)); }
static double dist(const V3& a, const V3& b) { double d = 0; for (int k = 0; k < DM; k++) d += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(d); }

// ---------------------------------------------------------------- reference model
struct Ref {
	const Environment& e; const S& s;
	double re, n0; bool edge = false;
	Ref(const Environment& e_, const S& s_) : e(e_), s(s_), re(e_.R_e), n0(refN0(e_)) {}
	static double refN0(const Environment& e) {
		double n = 0; const double q = e.R_e / e.L_0; const int m = (int)std::ceil(q) + 2;
		int id[3];
		for (id[0] = -m; id[0] <= m; id[0]++) for (id[1] = -m; id[1] <= m; id[1]++) for (id[2] = DM == 3 ? -m : 0; id[2] <= (DM == 3 ? m : 0); id[2]++) {
			if (!id[0] && !id[1] && !id[2]) continue;
			const double r = std::sqrt(double(id[0] * id[0] + id[1] * id[1] + id[2] * id[2])) * e.L_0;
			n += W(r, e.R_e);
		}
		return n;
	}
	static double W(double r, double re) { return (r > 0 && r < re * (1 - 1e-14)) ? re / r - 1 : 0; }
	struct Q { V3 x, u; double p; int t; long id; };
	double sumN(size_t i) {
		double r = 0;
		for (auto j : s.nb[i]) { const double d = dist(s.q[j].x, s.q[i].x); r += W(d, re); }
		return r;
	}
	// interaction partners of i: true neighbours in the radius and the virtual particle
	vector<Q> partners(size_t i, double nspp) {
		vector<Q> r; V3 g; g.fill(0);
		for (auto j : s.nb[i]) {
			const double d = dist(s.q[j].x, s.q[i].x);
			if (std::fabs(d - re) < 1e-9 * re) edge = true;
			if (d >= re) continue;
			r.push_back({s.q[j].x, s.q[j].u, s.q[j].p, s.q[j].t, (long)j});
			for (int k = 0; k < DM; k++) g[k] += W(d, re) * (s.q[j].x[k] - s.q[i].x[k]) / n0;
		}
		double rg = 0; for (auto y : g) rg += y * y; rg = std::sqrt(rg);
		if (std::fabs(nspp - n0) < 1e-9 * n0) edge = true;
		if (rg > 0 && rg < 1e-12 && std::fabs(rg - 2.3e-16) < 1e-12) edge = true; // at the threshold of balance
		if (nspp < n0 && rg > std::numeric_limits<double>::epsilon()) {
			Q v; v.id = -1; v.t = FLU; v.p = 0; v.u = s.q[i].u;
			const double rs = re / (n0 - nspp + 1);
			for (int k = 0; k < DM; k++) v.x[k] = s.q[i].x[k] - rs / rg * g[k];
			r.push_back(v);
		}
		return r;
	}
	double speed(size_t i, double& scale) {
		scale = 0;
		if (s.nspp[i] < n0) { if (n0 - s.nspp[i] < 1e-9 * n0) edge = true; return 0; }
		double r = 0;
		for (auto& q : partners(i, s.nspp[i])) {
			const double d = dist(q.x, s.q[i].x); double t = 0;
			for (int k = 0; k < DM; k++) { const double y = (q.x[k] - s.q[i].x[k]) * (q.u[k] - s.q[i].u[k]); t += y; scale += std::fabs(re * y / (d * d * d)); }
			r += t / (d * d * d);
		}
		return -re * r;
	}
};
static bool isLive(int t) { return t != DUM && t != DIS; }

struct Case { Cfg cfg; vector<P> q; std::unique_ptr<Comp> c; bool ok = false; };
// a computer in a state as phases find it: neighbour lists and densities up to date, everything else arbitrary
static void prepare(Case& k, bool distinct = true) {
	for (int tries = 0; tries < 50; tries++) {
		k.cfg = randomCfg(); k.q = scenario(k.cfg, distinct);
		note(describe(k.cfg, k.q));
		k.c.reset(new Comp(CreateComputer(k.cfg.eps, makeEnv(k.cfg), wall, pre)));
		add(*k.c, k.q);
		if (auto v = colEcs(*k.c, 0)) for (auto& x : *v) x = U(-2, 2);
		if (auto v = colDu(*k.c, 0)) for (auto& x : *v) for (int d = 0; d < DM; d++) x[d] = U(-2, 2);
		k.c->environment.Dt() = U(1e-5, 1e-2);
		const int adv = (int)RI(0, 3); for (int a = 0; a < adv; a++) k.c->environment.SetNextT();
		try { k.c->SearchNeighbor(); } catch (const std::exception&) { continue; }
		for (auto& p : k.c->particles) p.N() = U(0, 12);
		k.c->ComputeNeighborDensities();
		k.ok = true; return;
	}
	k.ok = false;
}
static void sameRest(const char* ph, const S& a, const S& b, bool x, bool u, bool p, bool n) {
	if (a.q.size() != b.q.size()) die(string(ph) + " changes the number of particles");
	for (size_t i = 0; i < a.q.size(); i++) {
		if (a.q[i].t != b.q[i].t) die(string(ph) + " changes the type of particle " + std::to_string(i));
		for (int k = 0; k < DM; k++) { if (x && a.q[i].x[k] != b.q[i].x[k]) die(string(ph) + " moves particle " + std::to_string(i)); if (u && a.q[i].u[k] != b.q[i].u[k]) die(string(ph) + " accelerates particle " + std::to_string(i)); }
		if (p && a.q[i].p != b.q[i].p) die(string(ph) + " changes the pressure of particle " + std::to_string(i));
		if (n && a.q[i].n != b.q[i].n) die(string(ph) + " changes the density of particle " + std::to_string(i));
	}
}

// ---------------------------------------------------------------- per property
static void pC01() {
	const double re = coin(0.5) ? U(0.01, 3) : double(RI(1, 3));
	double r = 0; switch (RI(0, 6)) { case 0: r = 0; break; case 1: r = re; break; case 2: r = std::nextafter(re, 0); break; case 3: r = std::nextafter(re, 10); break; case 4: r = U(re, 3 * re); break; case 5: r = 5e-324; break; default: r = U(0, re); }
	note("r=" + fmt(r) + " r_e=" + fmt(re));
	const double w = Particle::W(r, re), want = (0 < r && r < re) ? re / r - 1 : 0;
	if (!close_(w, want, 1e-3)) die("W=" + fmt(w) + " expected " + fmt(want));
	if ((want == 0) != (w == 0)) die("W=" + fmt(w) + " expected " + fmt(want));
	V3 a, b; for (int k = 0; k < DM; k++) { a[k] = U(-2, 2); b[k] = coin(0.2) ? a[k] : U(-2, 2); }
	P p{a, a, 0, 0, 0}, q{b, b, 0, 0, 0};
	const auto A = toP(p), B = toP(q);
	note("R(" + fmt(a[0]) + "," + fmt(a[1]) + " / " + fmt(b[0]) + "," + fmt(b[1]) + ")");
	const double d = dist(a, b);
	if (!close_(Comp::R(A, B), d, 0) || !close_(Comp::R(A.X(), B.X()), d, 0)) die("R=" + fmt(Comp::R(A, B)) + " expected " + fmt(d));
}
static void checkLists(Comp& c, const vector<P>& q) {
	const double nl = c.environment.NeighborLength;
	const size_t n = q.size();
	for (size_t i = 0; i < n; i++) {
		if (q[i].t == DIS) continue;
		std::multiset<size_t> got; const size_t m = c.NeighborCount(i);
		if (m > n) die("neighbour count " + std::to_string(m) + " of particle " + std::to_string(i));
		for (size_t k = 0; k < m; k++) got.insert(c.Neighbor(i, k));
		for (size_t j = 0; j < n; j++) {
			const double d = dist(q[i].x, q[j].x);
			const bool want = j != i && q[j].t != DIS && d < nl;
			if (std::fabs(d - nl) < 1e-12 * nl && j != i && q[j].t != DIS) { got.erase(j); continue; }
			if (got.count(j) != (want ? 1u : 0u)) die("neighbour list of particle " + std::to_string(i) + " holds particle " + std::to_string(j) + " " + std::to_string(got.count(j)) + " times, distance " + fmt(d) + ", neighbour length " + fmt(nl));
			got.erase(j);
		}
		if (!got.empty()) die("neighbour list of particle " + std::to_string(i) + " holds non-existing particle " + std::to_string(*got.begin()));
	}
}
static void crowd(const Cfg& cfg, vector<P>& q, size_t cap, const Environment& e) {
	// fill some cells to the brim (or past it)
	const int m = (int)RI(1, 2);
	for (int a = 0; a < m; a++) {
		V3 o; for (int k = 0; k < DM; k++) o[k] = cfg.mn[k] + e.NeighborLength * RI(0, 2);
		const size_t cnt = cap + RI(-1, 2);
		for (size_t j = 0; j < cnt; j++) { P p{}; for (int k = 0; k < DM; k++) { p.x[k] = o[k] + U(0.01, 0.99) * e.NeighborLength; p.u[k] = 0; } p.t = FLU; q.push_back(p); }
	}
}
static bool searchMatches(Comp& c, const Cfg& cfg, bool lists) {
	// expected outcome of the search from the positions alone
	const auto& e = c.environment;
	vector<P> before; for (auto& p : c.particles) before.push_back(fromP(p));
	std::map<std::array<long, DM>, size_t> cell; bool edge = false; size_t worst = 0;
	vector<int> st(before.size());
	for (size_t i = 0; i < before.size(); i++) {
		std::array<long, DM> b; bool dom = true, in = true;
		for (int k = 0; k < DM; k++) {
			const double y = (before[i].x[k] - e.MinX[k]) / e.NeighborLength;
			b[k] = (long)std::floor(y); if (std::fabs(y - std::round(y)) < 1e-9) edge = true;
			if (!(before[i].x[k] >= e.MinX[k] && before[i].x[k] <= e.MaxX[k])) dom = false;
			const long cells = (long)std::ceil((e.MaxX[k] - e.MinX[k]) / e.NeighborLength) + 2;
			if (b[k] < 0 || b[k] >= cells) in = false;
		}
		st[i] = dom ? 1 : in ? 2 : 0;
		if (before[i].t != DIS && in) worst = std::max(worst, ++cell[b]);
	}
	bool threw = false;
	try { c.SearchNeighbor(); } catch (const std::exception&) { threw = true; }
	const size_t cap = c.grid.MaxParticles();
	if (!edge && threw != (worst > cap)) die(string(threw ? "the search throws" : "the search does not throw") + " with at most " + std::to_string(worst) + " particles per cell, capacity " + std::to_string(cap));
	if (threw) return false;
	vector<P> q; for (auto& p : c.particles) q.push_back(fromP(p));
	if (q.size() != before.size()) die("number of particles changed");
	if (!lists) for (size_t i = 0; i < q.size(); i++) {
		const bool dis = q[i].t == DIS, was = before[i].t == DIS;
		if (!dis && q[i].t != before[i].t) die("type of particle " + std::to_string(i) + " changed");
		if (was && !dis) die("particle reactivated");
		if (!was && dis && st[i] == 1 ) die("particle " + std::to_string(i) + " inside the domain deactivated");
		if (!edge && !was && dis && st[i] == 2) die("particle " + std::to_string(i) + " in a covered cell deactivated");
		if (!edge && !was && !dis && st[i] == 0) die("particle " + std::to_string(i) + " outside the covered cells stays active");
		for (int k = 0; k < DM; k++) if (q[i].x[k] != before[i].x[k] || q[i].u[k] != before[i].u[k]) die("the search moves particles");
	}
	if (lists) checkLists(c, q);
	return true;
}
static void search(bool lists) {
	const Cfg cfg = randomCfg(); auto q = scenario(cfg, coin(0.7));
	Comp c(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre));
	if (coin(0.3)) crowd(cfg, q, c.grid.MaxParticles(), c.environment);
	note(describe(cfg, q));
	add(c, q);
	if (!searchMatches(c, cfg, lists)) return;
	// search again after the particles moved: nothing of the first search may survive
	const int more = (int)RI(0, 2);
	for (int a = 0; a < more; a++) {
		for (auto& p : c.particles) for (int k = 0; k < DM; k++) p.X()[k] += U(-1, 1) * c.environment.NeighborLength * (coin(0.2) ? 3 : 0.3);
		vector<P> s; for (auto& p : c.particles) s.push_back(fromP(p));
		note("second search after " + describe(cfg, q) + " moved to " + describe(cfg, s));
		if (!searchMatches(c, cfg, lists)) return;
	}
}
static void pC02() { search(true); }
static void pC04() {
	search(false);
	Case k; prepare(k); if (!k.ok) return;
	const S a = snap(*k.c);
	k.c->ComputeNeighborDensities(); k.c->ComputeErrorCorrection(); k.c->ComputeExplicitForces(); k.c->ComputeNeighborDensities(); k.c->SaveX();
	try { k.c->ComputeImplicitForces(); } catch (const std::exception&) {}
	k.c->DynamicStabilize();
	const S b = snap(*k.c);
	sameRest("a step", a, b, false, false, false, false);
}
static void pC03() {
	search(true);
	const Cfg cfg = randomCfg(); auto q = scenario(cfg, true);
	Comp c(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre));
	if (coin(0.2)) crowd(cfg, q, c.grid.MaxParticles(), c.environment);
	note(describe(cfg, q) + " steps");
	add(c, q);
	try { for (int a = 0; a < 3; a++) c.ForwardTime(U(1e-5, 1e-3)); } catch (const std::exception&) {}
	if (coin(0.5)) { auto r = scenario(cfg, true); note(describe(cfg, q) + " then added " + describe(cfg, r)); add(c, r); try { for (int a = 0; a < 2; a++) c.ForwardTime(1e-4); } catch (const std::exception&) {} }
}
static bool settle(Case& k, Ref& r) { return true; }
static void pC06() {
	Case k; prepare(k); if (!k.ok) return;
	auto& c = *k.c;
	for (auto& p : c.particles) p.N() = U(0, 12);
	const S a = snap(c); c.ComputeNeighborDensities(); const S b = snap(c);
	Ref r(c.environment, a);
	sameRest("density phase", a, b, true, true, true, false);
	for (size_t i = 0; i < a.q.size(); i++) {
		if (!isLive(a.q[i].t)) { if (a.q[i].n != b.q[i].n) die("density of inactive particle " + std::to_string(i) + " changed"); continue; }
		const double s = r.sumN(i);
		same("density", i, b.q[i].n, std::max(s, r.n0), 1e-6);
		if (!b.nspp.empty()) same("own density", i, b.nspp[i], s, 1e-6);
	}
}
static void pC10(bool fluidOnly) {
	Case k; prepare(k); if (!k.ok) return;
	auto& c = *k.c; preLog.clear();
	const S a = snap(c); const double t = c.environment.T(), dt = c.environment.Dt();
	c.ComputeExplicitForces(); const S b = snap(c);
	const auto& e = c.environment; Ref r(e, a);
	if (preLog.size() != 1 || preLog[0].first != t || preLog[0].second != dt) die("the preparation is not called exactly once with (t, dt)");
	sameRest("predictor", a, b, false, false, true, true);
	for (size_t i = 0; i < a.q.size(); i++) {
		if (a.q[i].t == FLU) {
			V3 f; f.fill(0); double sc = 0; r.edge = false;
			for (auto& q : r.partners(i, a.nspp.empty() ? r.sumN(i) : a.nspp[i])) if (q.t != DUM) {
				const double d = dist(q.x, a.q[i].x);
				for (int m = 0; m < DM; m++) { const double y = e.Nu * (5 - DM) * r.re / r.n0 / (d * d * d) * (q.u[m] - a.q[i].u[m]); f[m] += y; sc += std::fabs(y); }
			}
			if (r.edge) continue;
			for (int m = 0; m < DM; m++) {
				const double u = a.q[i].u[m] + dt * (f[m] + (m == DM - 1 ? -k.cfg.g : 0));
				same("velocity", i, b.q[i].u[m], u, std::fabs(a.q[i].u[m]) + dt * sc + 1e-6);
				same("position", i, b.q[i].x[m], a.q[i].x[m] + dt * u, std::fabs(a.q[i].x[m]) + dt * std::fabs(u));
			}
		} else {
			const auto w = wall(i, t, dt);
			for (int m = 0; m < DM; m++) { same("prescribed position", i, b.q[i].x[m], w[m]); same("prescribed velocity", i, b.q[i].u[m], (w[m] - a.q[i].x[m]) / dt, 1); }
		}
	}
}
static void checkGradient(const S& a, const S& b, const Environment& e) {
	Ref r(e, a); const double dt = e.Dt();
	sameRest("corrector", a, b, false, false, true, true);
	for (size_t i = 0; i < a.q.size(); i++) {
		if (a.q[i].t != FLU) { for (int m = 0; m < DM; m++) if (a.q[i].x[m] != b.q[i].x[m] || a.q[i].u[m] != b.q[i].u[m]) die("corrector moves non-fluid particle " + std::to_string(i)); continue; }
		r.edge = false;
		const auto qs = r.partners(i, a.nspp[i]); if (r.edge) continue;
		V3 f; f.fill(0); double sc = 0;
		vector<V3> terms;
		for (auto& q : qs) if (q.t != DUM) {
			const double d = dist(q.x, a.q[i].x);
			for (int m = 0; m < DM; m++) { const double y = (q.p + a.q[i].p) / (d * d) * Ref::W(d, r.re) * (q.x[m] - a.q[i].x[m]); f[m] += y; sc += std::fabs(y); }
		}
		V3 dlt;
#ifdef MPS_GC
		double M[3][3] = {}, det; const double t = DM / r.n0;
		for (auto& q : qs) { const double d = dist(q.x, a.q[i].x); for (int x = 0; x < DM; x++) for (int y = 0; y < DM; y++) M[x][y] += Ref::W(d, r.re) / (d * d) * (q.x[x] - a.q[i].x[x]) * (q.x[y] - a.q[i].x[y]); }
		double mx = 0; for (auto& v : M) for (double y : v) mx = std::max(mx, std::fabs(y));
		double inv[3][3] = {};
		if (DM == 2) {
			det = M[0][0] * M[1][1] - M[0][1] * M[1][0];
			if (std::fabs(det) < 1e-4 * mx * mx + 1e-12) continue; // (nearly) singular: rounding decides the branch
			inv[0][0] = M[1][1] / det; inv[1][1] = M[0][0] / det; inv[0][1] = -M[0][1] / det; inv[1][0] = -M[1][0] / det;
		} else {
			auto co = [&](int x, int y) { int x1 = (x + 1) % 3, x2 = (x + 2) % 3, y1 = (y + 1) % 3, y2 = (y + 2) % 3; return M[x1][y1] * M[x2][y2] - M[x1][y2] * M[x2][y1]; };
			det = 0; for (int y = 0; y < 3; y++) det += M[0][y] * co(0, y);
			if (std::fabs(det) < 1e-4 * mx * mx * mx + 1e-12) continue;
			for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) inv[y][x] = co(x, y) / det;
		}
		(void)t;
		for (int x = 0; x < DM; x++) { dlt[x] = 0; for (int y = 0; y < DM; y++) dlt[x] += inv[x][y] * f[y]; dlt[x] *= -dt * a.q[i].n / (e.Rho * r.n0); }
		sc *= 1e6 * dt / (e.Rho * r.n0);
#else
		for (int m = 0; m < DM; m++) dlt[m] = -(dt * DM) / (e.Rho * r.n0) * f[m];
		sc *= dt * DM / (e.Rho * r.n0);
#endif
		for (int m = 0; m < DM; m++) {
			same("velocity", i, b.q[i].u[m], a.q[i].u[m] + dlt[m], std::fabs(a.q[i].u[m]) + sc);
			same("position", i, b.q[i].x[m], a.q[i].x[m] + dt * dlt[m], std::fabs(a.q[i].x[m]) + dt * sc);
		}
	}
}
static void pC16() {
	Case k; prepare(k); if (!k.ok) return;
	for (auto& p : k.c->particles) p.P() = coin(0.3) ? 0 : U(0, 1000);
	const S a = snap(*k.c); k.c->ModifyByPressureGradient(); const S b = snap(*k.c);
	checkGradient(a, b, k.c->environment);
}
static void pC17() {
	Case k; prepare(k); if (!k.ok) return;
	auto& c = *k.c;
	if (auto v = colOx(c, 0)) for (auto& x : *v) for (int d = 0; d < DM; d++) x[d] = 777;
	S a = snap(c); c.SaveX(); S b = snap(c);
	for (size_t i = 0; i < a.q.size(); i++) if (isLive(a.q[i].t) && !b.ox.empty()) for (int m = 0; m < DM; m++) if (b.ox[i][m] != a.q[i].x[m]) die("snapshot of particle " + std::to_string(i) + " is not its position");
	sameRest("snapshot", a, b, true, true, true, true);
	for (auto& p : c.particles) for (int d = 0; d < DM; d++) p.X()[d] += U(-0.2, 0.2) * k.cfg.l0;
	const S o = a; a = snap(c); c.DynamicStabilize(); b = snap(c);
	const auto& e = c.environment; Ref r(e, a); const double dt = e.Dt(), d = e.L_0 - e.MaxDx;
	sameRest("stabilisation", a, b, false, false, true, true);
	for (size_t i = 0; i < a.q.size(); i++) {
		if (a.q[i].t != FLU) { for (int m = 0; m < DM; m++) if (a.q[i].x[m] != b.q[i].x[m] || a.q[i].u[m] != b.q[i].u[m]) die("stabilisation moves non-fluid particle " + std::to_string(i)); continue; }
		V3 f; f.fill(0); bool edge = false; double sc = 0;
		for (auto j : a.nb[i]) {
			const double rr = dist(a.q[i].x, a.q[j].x);
			if (std::fabs(rr - d) < 1e-9 * d || std::fabs(rr - e.R_e) < 1e-9 * e.R_e) edge = true;
			if (a.q[j].t == DUM || rr >= d || rr >= e.R_e) continue;
			V3 dx, ee; double l = dist(o.q[i].x, o.q[j].x), par = 0;
			for (int m = 0; m < DM; m++) { dx[m] = a.q[j].x[m] - a.q[i].x[m]; ee[m] = (o.q[j].x[m] - o.q[i].x[m]) / l; par += dx[m] * ee[m]; }
			double pp = 0; for (int m = 0; m < DM; m++) { const double y = dx[m] - par * ee[m]; pp += y * y; }
			for (int m = 0; m < DM; m++) { const double y = (std::sqrt(d * d - pp) - par) * ee[m]; f[m] += y; sc += std::fabs(y) + d; }
		}
		if (edge) continue;
		for (int m = 0; m < DM; m++) {
			const double ch = -f[m] / (2 * dt * r.n0);
			same("velocity", i, b.q[i].u[m], a.q[i].u[m] + ch, std::fabs(a.q[i].u[m]) + sc / (2 * dt * r.n0));
			same("position", i, b.q[i].x[m], a.q[i].x[m] + dt * ch, std::fabs(a.q[i].x[m]) + sc / r.n0);
		}
	}
}
static void pC26() {
	Case k; prepare(k); if (!k.ok) return;
	auto& c = *k.c; if (!colEcs(c, 0)) return;
	if (coin(0.3)) for (auto& p : c.particles) p.N() = U(0, 12);
	const S a = snap(c); Ref r(c.environment, a);
	vector<double> sp(a.q.size());
	for (size_t i = 0; i < a.q.size(); i++) if (a.q[i].t != DIS) sp[i] = c.NeighborDensityVariationSpeed(i);
	c.ComputeErrorCorrection(); const S b = snap(c);
	sameRest("error correction", a, b, true, true, true, true);
	for (size_t i = 0; i < a.q.size(); i++) {
		if (a.q[i].t == DIS) { if (a.ecs[i] != b.ecs[i]) die("correction of a deactivated particle changed"); continue; }
		r.edge = false; double sc; const double s = r.speed(i, sc); if (r.edge) continue;
		same("growth rate", i, sp[i], s, sc);
		if (!isLive(a.q[i].t)) { if (a.ecs[i] != b.ecs[i]) die("correction of dummy particle changed"); continue; }
		const double err = (a.q[i].n - r.n0) / r.n0;
		same("correction", i, b.ecs[i], std::fabs(err) * s + std::fabs(s) * err, 2 * sc * (std::fabs(err) + 1e-6));
	}
}
template<class M> static vector<vector<double>> dense(const M& A, size_t n) {
	vector<std::map<unsigned, double>> rows(n); viennacl::copy(A, rows);
	vector<vector<double>> d(n, vector<double>(n, 0.0));
	for (size_t i = 0; i < n; i++) for (auto& kv : rows[i]) { if (kv.first >= n) die("matrix column out of range"); d[i][kv.first] = kv.second; }
	return d;
}
static vector<double> hostv(const viennacl::vector<double>& v) { vector<double> r(v.size()); if (!r.empty()) viennacl::copy(v.begin(), v.end(), r.begin()); return r; }
static void checkPpe(Comp& c, const S& a, bool mat, bool rhs, double wantEps) {
	const size_t n = a.q.size(); const auto& e = c.environment; Ref r(e, a);
	if (mat) {
		if (c.ppe.A.size1() != n || c.ppe.A.size2() != n) die("matrix size");
		const auto A = dense(c.ppe.A, n);
		for (size_t i = 0; i < n; i++) {
			vector<double> w(n, 0.0); r.edge = false; double sc = 0;
			if (!isLive(a.q[i].t)) w[i] = 1;
			else for (auto& q : r.partners(i, a.nspp[i])) if (q.t != DUM) {
				const double d = dist(q.x, a.q[i].x), k = (5 - DM) * r.re / r.n0 / (d * d * d);
				if (q.id >= 0) w[q.id] = k; w[i] -= k; sc += k;
			}
			if (r.edge) continue;
			for (size_t j = 0; j < n; j++) {
				if (!close_(A[i][j], w[j], i == j ? sc : 0)) die("matrix entry (" + std::to_string(i) + "," + std::to_string(j) + "): got " + fmt(A[i][j]) + ", expected " + fmt(w[j]));
			}
		}
	}
	if (rhs) {
		const auto b = hostv(c.ppe.b), x = hostv(c.ppe.x);
		if (b.size() != n || x.size() != n || c.ppe.cg.r.size() != n || c.ppe.cg.p.size() != n || c.ppe.cg.Ap.size() != n) die("vector sizes of the pressure system");
		for (size_t i = 0; i < n; i++) {
			if (!isLive(a.q[i].t)) { if (b[i] != 0 || x[i] != 0) die("right-hand side or start value of inactive particle " + std::to_string(i) + " is not 0"); continue; }
			r.edge = false; double sc; const double s = r.speed(i, sc); if (r.edge) continue;
			const double k = e.Rho / (r.n0 * e.Dt());
			same("right-hand side", i, b[i], -k * (s + a.ecs[i]), k * (sc + std::fabs(a.ecs[i])));
			same("start value", i, x[i], a.q[i].p);
		}
	}
}
static void ppe(bool mat, bool rhs) {
	Case k; prepare(k); if (!k.ok || k.q.empty()) return;
	auto& c = *k.c;
	if (coin(0.3)) for (auto& p : c.particles) for (int d = 0; d < DM; d++) p.U()[d] = 0; // nothing to correct
	if (coin(0.3)) { if (auto v = colEcs(c, 0)) for (auto& x : *v) if (coin(0.6)) x = 0; }
	S a = snap(c);
	c.SetPressurePoissonEquation(); S b = snap(c);
	sameRest("pressure system", a, b, true, true, true, true);
	checkPpe(c, a, mat, rhs, k.cfg.eps);
	const int more = (int)RI(0, 2);
	for (int m = 0; m < more; m++) { // the same computer in another state, perhaps with more particles
		if (coin(0.4)) { auto q = scenario(k.cfg, true); add(c, q); }
		for (auto& p : c.particles) for (int d = 0; d < DM; d++) p.X()[d] += U(-0.4, 0.4) * k.cfg.l0;
		vector<P> s; for (auto& p : c.particles) s.push_back(fromP(p)); note("again on " + describe(k.cfg, s));
		try { c.SearchNeighbor(); } catch (const std::exception&) { return; }
		// keep positions distinct
		a = snap(c); for (size_t i = 0; i < a.q.size(); i++) for (auto j : a.nb[i]) if (dist(a.q[i].x, a.q[j].x) < 1e-3 * k.cfg.l0) return;
		c.ComputeNeighborDensities(); if (auto v = colEcs(c, 0)) for (auto& x : *v) x = U(-2, 2);
		a = snap(c); c.SetPressurePoissonEquation(); checkPpe(c, a, mat, rhs, k.cfg.eps);
	}
}
static void pC14() {
	const Cfg cfg = randomCfg(); Comp c(CreateComputer(coin(0.2) ? 0.0 : std::pow(10.0, -RI(1, 9)), makeEnv(cfg), wall, pre));
	const size_t n = coin(0.3) ? RI(1, 3) : RI(1, 12); auto& p = c.ppe;
	vector<std::map<unsigned, double>> A(n); vector<double> b(n), x(n);
	const int kind = (int)RI(0, 6); // 0-2 definite, 3 indefinite, 4 singular, 5 already solved, 6 small whole numbers, indefinite
	vector<vector<double>> B(n, vector<double>(n)), D(n, vector<double>(n, 0.0));
	for (auto& r : B) for (auto& y : r) y = U(-1, 1);
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
		double s = 0; for (size_t q = 0; q < n; q++) s += B[i][q] * B[j][q];
		if (kind == 3) s = B[i][j] + B[j][i];
		if (kind == 6) s = double((long)std::floor(2.9 * B[std::max(i, j)][std::min(i, j)]) % 2);
		if (kind == 4) s = (i + j) % 2 ? 0 : (i == j ? 1 : 0) * (i % 2);
		D[i][j] = -s - (kind <= 2 && i == j ? 0.5 : 0); if (D[i][j] != 0 || i == j) A[i][j] = D[i][j];
	}
	for (auto& y : b) y = coin(0.1) ? 0 : U(-5, 5); for (auto& y : x) y = coin(0.2) ? 0 : U(-5, 5);
	if (coin(0.1)) b.assign(n, 0.0); if (coin(0.2)) x.assign(n, 0.0);
	if (kind == 6) { for (auto& y : b) y = double(RI(-1, 1)); x.assign(n, 0.0); }
	if (kind == 5) { for (size_t i = 0; i < n; i++) { b[i] = 0; for (size_t j = 0; j < n; j++) b[i] += 0 * D[i][j]; } x.assign(n, 0.0); }
	std::ostringstream o; o << std::setprecision(17) << "n=" << n << " eps=" << p.allowableResidual << " A="; for (auto& r : D) { for (double y : r) o << y << ","; o << ";"; } o << " b="; for (double y : b) o << y << ","; o << " x="; for (double y : x) o << y << ",";
	note(o.str());
	p.A = typename std::remove_reference_t<decltype(p.A)>(n, n); p.b = viennacl::vector<double>(n); p.x = viennacl::vector<double>(n);
	p.cg.r = viennacl::vector<double>(n); p.cg.p = viennacl::vector<double>(n); p.cg.Ap = viennacl::vector<double>(n);
	viennacl::copy(A, p.A); viennacl::copy(b.begin(), b.end(), p.b.begin()); viennacl::copy(x.begin(), x.end(), p.x.begin());
	auto res = [&](const vector<double>& y) { double s = 0; for (size_t i = 0; i < n; i++) { double t = b[i]; for (size_t j = 0; j < n; j++) t -= D[i][j] * y[j]; s += t * t; } return s; };
	const double r0 = res(x), lim = r0 * p.allowableResidual * p.allowableResidual;
	bool threw = false; alarm(20);
	try { c.SolvePressurePoissonEquation(); } catch (const std::exception&) { threw = true; }
	alarm(0);
	const auto b2 = hostv(p.b), x2 = hostv(p.x); const auto A2 = dense(p.A, n);
	if (b2 != b) die("the solver changes b"); if (A2 != D) die("the solver changes A");
	if (!threw) {
		if (r0 * p.allowableResidual == 0) { if (x2 != x) die("start value changed although nothing was to do"); return; }
		double nb = 0, nx = 0, na = 0; for (double y : b) nb += y * y; for (double y : x2) nx += y * y; for (auto& r : D) for (double y : r) na += y * y;
		const double r1 = res(x2), slack = 1e-20 * (nb + na * nx) * n * n;
		if (!(r1 <= lim * (1 + 1e-6) + slack)) die("returned with squared residual " + fmt(r1) + ", allowed " + fmt(lim));
	} else if (kind <= 2 && p.allowableResidual >= 1e-4 && r0 > 1e-6 && n <= 4) {
		// conjugate gradients solve a well conditioned definite system of n unknowns in n iterations
		double mn = 1e300; (void)mn; die("throws on a well conditioned definite system");
	}
}
static void pC15() {
	Case k; prepare(k); if (!k.ok || k.q.empty()) return;
	auto& c = *k.c; const S a = snap(c);
	// twin: assemble and solve, then compare
	auto& q = k.q; (void)q;
	try { c.SetPressurePoissonEquation(); c.SolvePressurePoissonEquation(); } catch (const std::exception&) { return; }
	const auto sol = hostv(c.ppe.x);
	for (double y : sol) if (std::isnan(y)) return;
	try { c.ComputeImplicitForces(); } catch (const std::exception&) { die("the pressure phase throws although assembly and solution succeed"); }
	const S b = snap(c); S mid = a;
	for (size_t i = 0; i < a.q.size(); i++) {
		if (!isLive(a.q[i].t)) { if (a.q[i].p != b.q[i].p) die("pressure of inactive particle " + std::to_string(i) + " changed"); continue; }
		if (b.q[i].p < 0) die("negative pressure of particle " + std::to_string(i));
		same("pressure", i, b.q[i].p, sol[i] < 0 ? 0 : sol[i], 1e-6);
		mid.q[i].p = b.q[i].p;
	}
	checkGradient(mid, b, c.environment);
}
static void pC08() {
	Cfg cfg = randomCfg(); auto q = scenario(cfg, true);
	if (coin(0.4)) for (auto& p : q) if (p.t == DIS) for (auto& y : p.u) y *= 100;
	if (coin(0.1)) for (auto& p : q) p.u.fill(0);
	note(describe(cfg, q));
	Comp c(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)); add(c, q);
	const double dt = c.DetermineDt();
	double mx = 0; for (auto& p : q) if (p.t != DIS) { double s = 0; for (double y : p.u) s += y * y; mx = std::max(mx, std::sqrt(s)); }
	const double cap = std::min(cfg.maxDt, std::sqrt(2 * cfg.courant * cfg.l0 / cfg.g));
	const double want = mx == 0 ? cap : std::min(cap, cfg.courant * cfg.l0 / mx);
	if (!(dt > 0)) die("time step " + fmt(dt) + " is not positive");
	if (!close_(dt, want, 0)) die("time step " + fmt(dt) + ", expected " + fmt(want));
}
static void pC07() {
	Cfg c = randomCfg(); if (coin(0.5)) c.ratio = double(RI(1, 4)); else c.ratio = U(1.01, 4);
	note(describe(c, {})); const Environment e = makeEnv(c);
	auto eq = [&](const char* n, double g, double w) { if (!close_(g, w, 0)) die(string(n) + ": got " + fmt(g) + ", expected " + fmt(w)); };
	double n0 = 0; const int m = (int)std::ceil(c.ratio) + 3; int id[3];
	for (id[0] = -m; id[0] <= m; id[0]++) for (id[1] = -m; id[1] <= m; id[1]++) for (id[2] = DM == 3 ? -m : 0; id[2] <= (DM == 3 ? m : 0); id[2]++) {
		const double r = std::sqrt(double(id[0] * id[0] + id[1] * id[1] + id[2] * id[2])); if (r > 0 && r < c.ratio * (1 - 1e-12)) n0 += c.ratio / r - 1;
	}
	if (!close_(e.N0(), n0, 1e-3)) die("reference density: got " + fmt(e.N0()) + ", expected " + fmt(n0));
	eq("R_e", e.R_e, c.ratio * c.l0); eq("NeighborLength", e.NeighborLength, c.ratio * c.l0 * (1 + 2 * c.courant)); eq("MaxDx", e.MaxDx, c.courant * c.l0);
	eq("MaxDt", e.MaxDt, std::min(c.maxDt, std::sqrt(2 * c.courant * c.l0 / c.g))); eq("L_0", e.L_0, c.l0); eq("Rho", e.Rho, c.rho); eq("Nu", e.Nu, c.nu);
	for (int k = 0; k < DM; k++) { eq("G", e.G[k], k == DM - 1 ? -c.g : 0); eq("MinX", e.MinX[k], c.mn[k]); eq("MaxX", e.MaxX[k], c.mx[k]); }
	eq("T", e.T(), 0); eq("Dt", e.Dt(), 0);
}
static bool sameState(const S& a, const S& b, string& why) {
	if (a.q.size() != b.q.size()) { why = "particle count"; return false; }
	for (size_t i = 0; i < a.q.size(); i++) {
		for (int k = 0; k < DM; k++) { if (std::memcmp(&a.q[i].x[k], &b.q[i].x[k], 8)) { why = "position of " + std::to_string(i) + ": " + fmt(a.q[i].x[k]) + " / " + fmt(b.q[i].x[k]); return false; } if (std::memcmp(&a.q[i].u[k], &b.q[i].u[k], 8)) { why = "velocity of " + std::to_string(i) + ": " + fmt(a.q[i].u[k]) + " / " + fmt(b.q[i].u[k]); return false; } }
		if (std::memcmp(&a.q[i].p, &b.q[i].p, 8)) { why = "pressure of " + std::to_string(i) + ": " + fmt(a.q[i].p) + " / " + fmt(b.q[i].p); return false; }
		if (std::memcmp(&a.q[i].n, &b.q[i].n, 8)) { why = "density of " + std::to_string(i) + ": " + fmt(a.q[i].n) + " / " + fmt(b.q[i].n); return false; }
		if (a.q[i].t != b.q[i].t) { why = "type of " + std::to_string(i); return false; }
	}
	return true;
}
static void pC09() {
	Cfg cfg = randomCfg(); cfg.eps = 1e-3; auto q = scenario(cfg, true); if (q.empty()) return; note(describe(cfg, q));
	Comp a(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)), b(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre));
	add(a, q); add(b, q);
	for (int st = 0; st < 3; st++) {
		const double t0 = a.environment.T(); const bool autoDt = coin(0.4); double dt = U(1e-5, 1e-3);
		if (autoDt) dt = b.DetermineDt();
		preLog.clear(); bool ta = false, tb = false;
		try { if (autoDt) a.ForwardTime(); else a.ForwardTime(dt); } catch (const std::exception&) { ta = true; }
		const auto la = preLog; preLog.clear();
		b.environment.Dt() = dt; b.environment.SetNextT();
		try { b.SearchNeighbor(); b.ComputeNeighborDensities(); b.ComputeErrorCorrection(); b.ComputeExplicitForces(); b.ComputeNeighborDensities(); b.SaveX(); b.ComputeImplicitForces(); b.DynamicStabilize(); } catch (const std::exception&) { tb = true; }
		if (a.environment.T() != t0 + dt) die("clock after the step is " + fmt(a.environment.T()) + ", expected " + fmt(t0 + dt));
		if (ta != tb) die("the step and the sequence of its phases disagree on failing");
		if (la != preLog) die("the preparation is called differently");
		if (ta) return;
		string why; if (!sameState(snap(a), snap(b), why)) die("the step is not the composition of its phases: " + why);
	}
}
static void pC05() {
	Cfg cfg = randomCfg(); cfg.eps = 1e-3; auto q = scenario(cfg, true); if (q.size() < 2) return;
	const bool outside = coin(0.3);
	auto q2 = q; bool any = false;
	for (size_t i = 0; i < q.size(); i++) if (q[i].t == DIS || coin(0.15)) {
		q[i].t = q2[i].t = DIS; any = true;
		for (int k = 0; k < DM; k++) { q2[i].x[k] = U(cfg.mn[k], cfg.mx[k]); q2[i].u[k] = U(-1000, 1000) * cfg.l0; }
		q2[i].p = U(0, 1e4); q2[i].n = U(0, 100);
	}
	(void)outside; if (!any) return;
	note("two runs that differ in deactivated particles only: " + describe(cfg, q) + " and " + describe(cfg, q2));
	Still::at.assign(q.size(), Vector(DM)); for (size_t i = 0; i < q.size(); i++) for (int k = 0; k < DM; k++) Still::at[i][k] = q[i].x[k];
	CompS a(CreateComputer(cfg.eps, makeEnv(cfg), still, pre)), b(CreateComputer(cfg.eps, makeEnv(cfg), still, pre)); add(a, q); add(b, q2);
	auto check = [&](const char* ph) {
		for (size_t i = 0; i < q.size(); i++) {
			const P x = fromP(a.particles[i]), y = fromP(b.particles[i]);
			if (x.t == DIS) { if (q[i].t == DIS && (x.p != q[i].p || x.n != q[i].n || y.p != q2[i].p || y.n != q2[i].n)) die(string(ph) + " changes density or pressure of deactivated particle " + std::to_string(i)); continue; }
			for (int k = 0; k < DM; k++) if (!close_(x.x[k], y.x[k], 1e-3 * cfg.l0) || !close_(x.u[k], y.u[k], 1e-3)) die(string(ph) + ": a deactivated particle influences the motion of particle " + std::to_string(i));
			if (!close_(x.p, y.p, 1e-2) || !close_(x.n, y.n, 1e-3)) die(string(ph) + ": a deactivated particle influences pressure or density of particle " + std::to_string(i));
		}
	};
	for (int st = 0; st < 2; st++) {
		const double d1 = a.DetermineDt(), d2 = b.DetermineDt();
		if (!close_(d1, d2, 0)) die("a deactivated particle takes part in choosing the time step: " + fmt(d1) + " / " + fmt(d2));
		bool ta = false, tb = false;
		try { a.ForwardTime(d1); } catch (const std::exception&) { ta = true; }
		try { b.ForwardTime(d1); } catch (const std::exception&) { tb = true; }
		if (ta || tb) return; // rounding may decide whether the solver gives up
		check("a step");
		const size_t n = q.size(); const auto A = dense(a.ppe.A, n); const auto bb = hostv(a.ppe.b);
		for (size_t i = 0; i < n; i++) if (fromP(a.particles[i]).t == DIS) {
			for (size_t j = 0; j < n; j++) if (A[i][j] != (i == j ? 1 : 0) || (i != j && A[j][i] != 0)) die("deactivated particle " + std::to_string(i) + " is coupled in the pressure system");
			if (bb[i] != 0) die("right-hand side of deactivated particle " + std::to_string(i));
		}
	}
}
static void pC18() {
#ifdef _OPENMP
	Cfg cfg = randomCfg(true); cfg.eps = 1e-2; auto q = scenario(cfg, true, (int)RI(0, 2)); if (q.size() < 4) return; note(describe(cfg, q));
	Comp a(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)), b(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)); add(a, q); add(b, q);
	for (int st = 0; st < 2; st++) {
		auto run = [&](Comp& c, int th, bool& t) { omp_set_num_threads(th); t = false; try { c.SearchNeighbor(); c.ComputeNeighborDensities(); c.ComputeErrorCorrection(); c.environment.Dt() = 1e-4; c.ComputeExplicitForces(); c.SaveX(); c.SetPressurePoissonEquation(); c.ModifyByPressureGradient(); c.DynamicStabilize(); } catch (const std::exception&) { t = true; } };
		bool ta, tb; run(a, 1, ta); run(b, 8, tb); omp_set_num_threads(4);
		if (ta != tb) die("failure depends on the number of threads"); if (ta) return;
		string why; if (!sameState(snap(a), snap(b), why)) die("the result depends on the number of threads: " + why);
		if (dense(a.ppe.A, q.size()) != dense(b.ppe.A, q.size()) || hostv(a.ppe.b) != hostv(b.ppe.b)) die("the pressure system depends on the number of threads");
	}
#endif
}
static void pC19() {
#ifdef MPS_GC
	Detail::CorrectiveMatrix m = Detail::MatrixZero; double M[3][3]; const bool sing = coin(0.2), sym = coin(0.6); const double t = U(0.1, 3);
	for (int i = 0; i < DM; i++) for (int j = 0; j < DM; j++) M[i][j] = coin(0.1) ? 0 : U(-2, 2);
	if (sym) for (int i = 0; i < DM; i++) for (int j = 0; j < i; j++) M[i][j] = M[j][i];
	const double sc = coin(0.5) ? 1 : std::pow(10.0, -RI(1, 7)); for (auto& r : M) for (double& y : r) y *= sc;
	if (sing) for (int j = 0; j < DM; j++) { if (coin(0.5)) for (int i = 0; i < DM; i++) M[i][j] = 0; else M[0][j] = 0; }
	string d; for (int i = 0; i < DM; i++) for (int j = 0; j < DM; j++) { m(i, j) = M[i][j]; d += fmt(M[i][j]) + ","; }
	note("matrix " + d + " scale " + fmt(t));
	double det = DM == 2 ? M[0][0] * M[1][1] - M[0][1] * M[1][0] : M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]);
	auto copy = m; const auto c = Detail::InvertMatrix(std::move(copy), t);
	if (std::fabs(det) > 1e-3 * std::pow(sc, DM)) for (int i = 0; i < DM; i++) for (int j = 0; j < DM; j++) { double s = 0; for (int k = 0; k < DM; k++) s += M[i][k] * c(k, j); if (std::fabs(s - (i == j)) > 1e-7) die("the corrective matrix is not the inverse"); }
	else if (det == 0 && (M[0][0] == 0 || sing)) for (int i = 0; i < DM; i++) for (int j = 0; j < DM; j++) if (!close_(c(i, j), i == j ? t : 0, 0)) die("the corrective matrix of a singular sum is not the multiple of the identity");
	pC16();
#endif
}
static void pC20() {
	const Cfg cfg = randomCfg(); Comp c(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)); vector<P> all; const int m = (int)RI(1, 3);
	string d; 
	for (int a = 0; a < m; a++) {
		auto q = scenario(cfg, true); d += describe(cfg, q) + " | "; note(d); add(c, q);
		all.insert(all.end(), q.begin(), q.end());
		if (c.particles.size() != all.size()) die("number of particles after adding");
		for (size_t i = 0; i < all.size(); i++) { const P p = fromP(c.particles[i]); if (p.x != all[i].x || p.u != all[i].u || p.p != all[i].p || p.n != all[i].n || p.t != all[i].t) die("particle " + std::to_string(i) + " is not the given one"); }
		const size_t n = all.size();
		if (auto v = colDu(c, 0)) if (v->size() < n) die("velocity change storage"); if (auto v = colEcs(c, 0)) if (v->size() < n) die("correction storage"); if (auto v = colOx(c, 0)) if (v->size() < n) die("position storage"); if (auto v = colNspp(c, 0)) if (v->size() < n) die("density storage");
		if (c.neighbor.shape()[0] < n || c.neighbor.shape()[1] < 1 + c.grid.MaxParticles() * (DM == 3 ? 27 : 9)) die("neighbour storage: " + std::to_string(c.neighbor.shape()[0]) + "x" + std::to_string(c.neighbor.shape()[1]));
	}
}
static string scratch;
static string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static vector<string> cells(const string& l) { vector<string> r; string s; for (char ch : l) { if (ch == ',') { r.push_back(s); s.clear(); } else if (ch != ' ' && ch != '\t' && ch != '\r') s += ch; } r.push_back(s); return r; }
static void pC21() {
	const Cfg cfg = randomCfg(); auto q = scenario(cfg, true); note(describe(cfg, q)); Comp c(CreateComputer(cfg.eps, makeEnv(cfg), wall, pre)); add(c, q);
	const size_t no = coin(0.1) ? RI(99990, 123456) : RI(0, 300); char fn[64]; snprintf(fn, sizeof fn, "result/particles_%05zu.csv", no); ::unlink(fn);
	const size_t cnt = OutputToCsv(c, no); size_t live = 0; for (auto& p : q) live += p.t != DIS;
	if (cnt != live) die("returned count " + std::to_string(cnt) + ", expected " + std::to_string(live));
	std::ifstream f(fn); if (!f) die(string("no file ") + fn); vector<vector<string>> rows; string l; while (std::getline(f, l)) rows.push_back(cells(l));
	if (rows.size() != q.size() + 1) die("number of lines " + std::to_string(rows.size()));
	const auto& h = rows[0]; std::map<string, size_t> col; for (size_t k = 0; k < h.size(); k++) col[h[k]] = k;
	const vector<string> want = DM == 3 ? vector<string>{"Type", "x", "y", "z", "u", "v", "w", "p", "n"} : vector<string>{"Type", "x", "z", "u", "w", "p", "n"};
	if (h.size() != want.size()) die("header"); for (auto& w : want) if (!col.count(w)) die("header lacks " + w);
	for (size_t i = 0; i < q.size(); i++) {
		auto& r = rows[i + 1]; if (r.size() != h.size()) die("row " + std::to_string(i));
		auto val = [&](const string& nm, double w) { const double g = std::strtod(r[col[nm]].c_str(), nullptr); if (std::fabs(g - w) > 1e-4 * std::fabs(w) + 1e-300) die("column " + nm + " of row " + std::to_string(i) + ": " + r[col[nm]] + ", expected " + fmt(w)); };
		val("Type", q[i].t); val("p", q[i].p); val("n", q[i].n); const char* xs = DM == 3 ? "xyz" : "xz"; const char* us = DM == 3 ? "uvw" : "uw"; for (int k = 0; k < DM; k++) { val(string(1, xs[k]), q[i].x[k]); val(string(1, us[k]), q[i].u[k]); }
	}
	::unlink(fn);
}
static void pC22() {
	vector<string> names = DM == 3 ? vector<string>{"Type", "x", "y", "z", "u", "v", "w", "p", "n"} : vector<string>{"Type", "x", "z", "u", "w", "p", "n"};
	std::shuffle(names.begin(), names.end(), rng); const int bad = (int)RI(0, 7); vector<string> head = names; bool err = false;
	if (bad == 1) { head.erase(head.begin() + RI(0, (long)head.size() - 1)); err = true; }
	if (bad == 2) { head[RI(0, (long)head.size() - 1)] = "q"; err = true; }
	if (bad == 3) { head.insert(head.begin() + RI(0, (long)head.size()), "extra"); err = true; }
	auto blanks = [&] { string s; while (coin(0.3)) s += coin(0.5) ? ' ' : '\t'; return s; };
	string csv; if (coin(0.5)) csv += "\n"; if (coin(0.2)) csv += "\n";
	for (size_t k = 0; k < head.size(); k++) csv += (k ? "," : "") + blanks() + head[k] + blanks(); csv += "\n";
	vector<std::map<string, double>> want; const int rows = (int)RI(0, 5); const int badrow = bad == 4 && rows ? (int)RI(0, rows - 1) : -1;
	for (int r = 0; r < rows; r++) {
		std::map<string, double> w; for (auto& nm : names) w[nm] = nm == "Type" ? double(RI(0, 3)) : coin(0.2) ? double(RI(-5, 5)) : U(-100, 100);
		size_t m = names.size(); if (r == badrow) { m = RI(1, (long)names.size() - 1); err = true; }
		string l; for (size_t k = 0; k < m; k++) l += (k ? "," : "") + blanks() + (names[k] == "Type" ? std::to_string(int(w[names[k]])) : fmt(w[names[k]])) + blanks();
		csv += l + (r + 1 < rows || coin(0.7) ? "\n" : ""); if (coin(0.2)) csv += blanks() + "\n"; want.push_back(w);
	}
	if (bad == 5) { csv = string(RI(0, 4), '\n'); err = true; }
	if (bad == 6) { csv = ""; err = true; }
	note("csv text:\n" + csv);
	vector<Particle> got; bool threw = false; std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
	try { got = InputFromCsv(csv); } catch (const std::exception&) { threw = true; }
	std::cout.rdbuf(old);
	if (threw != err) die(err ? "malformed input is not rejected" : "well-formed input is rejected");
	if (err) return;
	if (got.size() != want.size()) die("number of particles " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()));
	for (size_t i = 0; i < got.size(); i++) {
		auto& w = want[i]; const P p = fromP(got[i]); auto eq = [&](const string& nm, double g) { if (g != w[nm]) die("property " + nm + " of particle " + std::to_string(i) + ": " + fmt(g) + ", expected " + fmt(w[nm])); };
		eq("Type", p.t); eq("p", p.p); eq("n", p.n); const char* xs = DM == 3 ? "xyz" : "xz"; const char* us = DM == 3 ? "uvw" : "uw"; for (int k = 0; k < DM; k++) { eq(string(1, xs[k]), p.x[k]); eq(string(1, us[k]), p.u[k]); }
	}
}
struct RunOut { int status; string out; vector<string> files; };
static RunOut runMain(const string& xml) {
	static int no = 0; const string d = scratch + "/run" + std::to_string(no++); mkdir(d.c_str(), 0755); std::ofstream(d + "/in.xml") << xml;
	const pid_t p = fork();
	if (p == 0) {
		if (chdir(d.c_str())) _exit(99); const int fd = open("out.txt", O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
		signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); alarm(60); const char* av[] = {"OpenMps", "in.xml", nullptr}; int r = 1;
		r = openmps_main(2, av); std::cout.flush(); _exit(r);
	}
	int st = 0; waitpid(p, &st, 0); RunOut o; o.status = st; o.out = slurp(d + "/out.txt");
	for (int k = 0; k < 400; k++) { char f[64]; snprintf(f, sizeof f, "/result/particles_%05d.csv", k); struct stat sb; if (!stat((d + f).c_str(), &sb)) o.files.push_back(f + 8); }
	for (auto& f : o.files) ::unlink((d + "/result/" + f).c_str()); ::rmdir((d + "/result").c_str()); ::unlink((d + "/in.xml").c_str()); ::unlink((d + "/out.txt").c_str()); ::rmdir(d.c_str());
	return o;
}
static string xmlFor(const Cfg& c, double start, double end, double interval, int minSteps, const vector<P>& q) {
	std::ostringstream o; o << std::setprecision(17); auto v = [&](const char* n, double y) { o << "<" << n << " value=\"" << y << "\"/>"; };
	o << "<?xml version=\"1.0\"?><openmps><condition>"; v("startTime", start); v("endTime", end); v("outputInterval", interval); v("eps", c.eps); o << "</condition><environment>";
	v("l_0", c.l0); o << "<minStepCountPerOutput value=\"" << minSteps << "\"/>"; v("courant", c.courant); v("g", c.g); v("rho", c.rho); v("nu", c.nu); v("r_eByl_0", c.ratio); v("minX", c.mn[0]); v("maxX", c.mx[0]);
	if (DM == 3) { v("minY", c.mn[1]); v("maxY", c.mx[1]); } v("minZ", c.mn[DM - 1]); v("maxZ", c.mx[DM - 1]);
	o << "</environment><particles type=\"csv\">\n" << (DM == 3 ? "Type,x,y,z,u,v,w,p,n\n" : "Type,x,z,u,w,p,n\n");
	for (auto& p : q) { o << p.t; for (double y : p.x) o << "," << y; for (double y : p.u) o << "," << y; o << "," << p.p << "," << p.n << "\n"; }
	o << "</particles></openmps>\n"; return o.str();
}
static void pC23() {
	Cfg c; c.l0 = 0.1; c.ratio = 2.1; c.courant = 0.1; c.g = 9.8; c.rho = 1000; c.nu = 1e-6; c.eps = 1e-3; c.maxDt = 1; for (int k = 0; k < DM; k++) { c.mn[k] = -1; c.mx[k] = 2; }
	const int kind = (int)RI(0, 3); vector<P> q;
	auto put = [&](double x, double z, int t) { P p{}; p.x.fill(0); p.x[0] = x; p.x[DM - 1] = z; p.u.fill(0); p.t = t; q.push_back(p); };
	const double starts[] = {0, 0.25, 0.5, 0.1}; const double start = kind == 3 ? 0 : starts[RI(0, 3)], interval = coin(0.5) ? 0.125 : 0.0625; const int outs = (int)RI(0, 4); const double end = start + outs * interval - (coin(0.5) && outs ? interval * U(0.05, 0.95) : 0);
	bool fail = false;
	if (kind == 0) { put(0, 0, FLU); } // falls freely
	if (kind == 1) { put(0, 0, WAL); put(0.1, 0, WAL); }
	if (kind == 2) { const int m = (int)(c.ratio * 1.2) + 2; for (int i = 0; i < (DM == 3 ? m * m * m : m * m) + 12; i++) put(0.001 * i, 0.3 + 0.0001 * (i % 7), WAL); fail = outs > 0; } // more than a cell can hold
	if (kind == 3) { put(0, 0, FLU); put(0.05, 0.01, FLU); put(0.3, 0.3, WAL); }
	const auto xml = xmlFor(c, start, end, interval, (int)RI(1, 3), q); note("configuration file:\n" + xml);
	const auto o = runMain(xml); const int off = (int)std::ceil(start / interval - 1e-12), cnt = (int)std::ceil((end - start) / interval - 1e-12);
	const bool ended = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0; const bool err = o.out.find("ERROR") != string::npos;
	if (!ended) die("the run aborts; output:\n" + o.out.substr(0, 600));
	if (fail && !err) die("a failed computation is not reported; output:\n" + o.out.substr(0, 600));
	const int want = (fail || err ? -1 : cnt + 1);
	if (o.out.find("finished") == string::npos) die("the run does not finish; output:\n" + o.out.substr(0, 600));
	if (want >= 0) { if ((int)o.files.size() != want) die("number of results " + std::to_string(o.files.size()) + ", expected " + std::to_string(want)); for (int k = 0; k < want; k++) { char f[64]; snprintf(f, sizeof f, "particles_%05d.csv", off + k); if (o.files[k] != f) die("result " + string(f) + " missing"); } }
	if (fail && o.files.size() != 1) die("results after a failure");
}
static void pC27() {
	Cfg c = randomCfg(); const double start = U(0, 1), end = U(1, 2), iv = U(0.01, 0.5); const int ms = (int)RI(1, 9); c.eps = std::pow(10, -RI(2, 9)); auto q = scenario(c, true);
	const auto xml = xmlFor(c, start, end, iv, ms, q); note(xml); boost::property_tree::ptree t; std::stringstream s(xml); boost::property_tree::read_xml(s, t);
	auto eq = [&](const char* n, double g, double w) { if (!close_(g, w, 0)) die(string(n) + ": got " + fmt(g) + ", expected " + fmt(w)); };
	auto&& cond = LoadCondition(t); eq("startTime", cond.StartTime, start); eq("endTime", cond.EndTime, end); eq("outputInterval", cond.OutputInterval, iv); eq("eps", cond.Eps, c.eps);
	auto&& e = LoadEnvironment(t, cond.OutputInterval); Cfg d = c; d.maxDt = iv / ms; const Environment w = makeEnv(d);
	eq("maxDt", e.MaxDt, w.MaxDt); eq("MaxDx", e.MaxDx, w.MaxDx); eq("L_0", e.L_0, w.L_0); eq("R_e", e.R_e, w.R_e); eq("Rho", e.Rho, w.Rho); eq("Nu", e.Nu, w.Nu); eq("NeighborLength", e.NeighborLength, w.NeighborLength); eq("N0", e.N0(), w.N0());
	for (int k = 0; k < DM; k++) { eq("G", e.G[k], w.G[k]); eq("MinX", e.MinX[k], w.MinX[k]); eq("MaxX", e.MaxX[k], w.MaxX[k]); }
	std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); bool threw = false; vector<Particle> got;
	try { got = LoadParticles(t); } catch (const std::exception&) { threw = true; } std::cout.rdbuf(old);
	if (threw || got.size() != q.size()) die("particles are not read");
	for (size_t i = 0; i < q.size(); i++) if (fromP(got[i]).x != q[i].x || fromP(got[i]).t != q[i].t) die("particle " + std::to_string(i) + " differs");
	const char* bad[] = {"xml", "CSV", "", "csv2"}; const char* b = bad[RI(0, 3)]; t.put("openmps.particles.<xmlattr>.type", b); note("particle source type '" + string(b) + "'"); threw = false; old = std::cout.rdbuf(sink.rdbuf());
	try { LoadParticles(t); } catch (const std::exception&) { threw = true; } std::cout.rdbuf(old); if (!threw) die("unsupported particle source accepted");
	t.get_child("openmps.particles.<xmlattr>").erase("type"); note("particle source without a type"); threw = false; old = std::cout.rdbuf(sink.rdbuf());
	try { LoadParticles(t); } catch (const std::exception&) { threw = true; } std::cout.rdbuf(old); if (!threw) die("particle source without a type accepted");
	if (coin(0.3)) { // computer's tolerance
		Comp c2(CreateComputer(c.eps, e, wall, pre)); eq("allowable residual", c2.ppe.allowableResidual, c.eps);
	}
}
static void pC28() {
	Case k; prepare(k); if (!k.ok) return; auto& c = *k.c; if (coin(0.2)) for (auto& p : c.particles) for (int d = 0; d < DM; d++) p.U()[d] = 0;
	feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_DIVBYZERO | FE_INVALID);
	{ Environment e = makeEnv(k.cfg); (void)e; }
	c.DetermineDt(); c.SearchNeighbor(); c.ComputeNeighborDensities(); c.ComputeErrorCorrection(); c.ComputeExplicitForces(); c.ComputeNeighborDensities(); c.SaveX();
	const S a = snap(c); bool close = false; for (size_t i = 0; i < a.q.size(); i++) for (size_t j = 0; j < i; j++) if (dist(a.q[i].x, a.q[j].x) < 1e-6 * k.cfg.l0) close = true;
	if (!close) { if (!a.q.empty()) c.SetPressurePoissonEquation(); c.ModifyByPressureGradient(); c.DynamicStabilize(); }
	fedisableexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT);
}
static void pC25() { switch (RI(0, 3)) { case 0: pC10(true); break; case 1: pC16(); break; case 2: ppe(true, false); break; default: pC26(); } }

int main(int argc, char** argv) {
	if (argc < 4) return 2;
	prop = argv[1]; const long seed = atol(argv[2]); const double secs = atof(argv[3]); long only = argc > 4 ? atol(argv[4]) : -1;
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
	char tmp[] = "/tmp/vcharnessXXXXXX"; if (!mkdtemp(tmp)) return 2; scratch = tmp; if (chdir(tmp)) return 2; mkdir("result", 0755);
	std::map<string, void (*)()> f = {{"C01", pC01}, {"C02", pC02}, {"C03", pC03}, {"C04", pC04}, {"C05", pC05}, {"C06", pC06}, {"C07", pC07}, {"C08", pC08}, {"C09", pC09}, {"C10", [] { pC10(true); }}, {"C11", [] { pC10(false); if (coin(0.5)) pC16(); else pC17(); }}, {"C12", [] { ppe(true, false); }}, {"C13", [] { ppe(false, true); }}, {"C14", pC14}, {"C15", pC15}, {"C16", pC16}, {"C17", pC17}, {"C18", pC18}, {"C19", pC19}, {"C20", pC20}, {"C21", pC21}, {"C22", pC22}, {"C23", pC23}, {"C25", pC25}, {"C26", pC26}, {"C27", pC27}, {"C28", pC28}};
	if (!f.count(prop)) return 2;
	const auto t0 = std::chrono::steady_clock::now();
	const pid_t p = fork(); // the child runs the cases; the parent removes the scratch directory
	if (p == 0) {
		for (cases = only >= 0 ? only : 0; ; cases++) {
			if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
			rng.seed(seed * 1000003ull + cases); note("(none)");
			try { f[prop](); } catch (const std::exception& e) { die(string("unexpected exception: ") + e.what()); }
			if (only >= 0) { cases++; break; }
		}
		printf("OK property=%s cases=%ld\n", prop, cases); fflush(stdout); _exit(0);
	}
	int st = 0; waitpid(p, &st, 0); if (chdir("/")) {}
	const string rm = string("rm -rf /tmp/vcharness") + (tmp + strlen("/tmp/vcharness")); if (system(rm.c_str())) {}
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
