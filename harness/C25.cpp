// C25: the bundled test equations agree with their published definitions.
#include "common.hpp"
#include "test_equations.hpp"
#include <functional>
using namespace rtm;
namespace te = test_equations;

long n_cases(bool th) { return th ? 400000 : 24000; }

typedef long double ld;
typedef std::vector<ld> V;

struct Eq {
	std::string name, d;
	int dim = 0;
	std::function<V(const V &)> f;       // the model, written down independently
	std::shared_ptr<functor> F;
	std::function<vec(double)> sol;
};

// Derivative of the model by a difference formula of eighth order in extended precision.
static std::vector<V> derivative(const std::function<V(const V &)> &f, const V &y, ld scale)
{
	static const ld w[4] = {4.0L / 5, -1.0L / 5, 4.0L / 105, -1.0L / 280};
	int n = y.size();
	std::vector<V> J(n, V(n, 0));
	for (int j = 0; j < n; ++j) {
		ld h = 2e-3L * scale;
		for (int k = 1; k <= 4; ++k) {
			V a = y, b = y;
			a[j] += k * h; b[j] -= k * h;
			V fa = f(a), fb = f(b);
			for (int i = 0; i < n; ++i) J[i][j] += w[k - 1] * (fa[i] - fb[i]) / h;
		}
	}
	return J;
}

void run_case(long id, Rng &r)
{
	Eq e;
	int kind = id % 10;
	V lo, hi;
	double a = r.logu(1e-3, 1e3) * (r.b(0.3) ? -1 : 1), b = r.logu(1e-3, 1e3), c = r.logu(1e-3, 1e3);
	V y;
	auto any = [&](int n) { y.resize(n); double s = r.logu(0.1, 30); for (auto &x : y) x = r.u(-s, s); };
	ld yscale = 1;
	switch (kind) {
	case 0: {
		bool def = r.b(0.1); if (def) a = 1;
		auto *p = def ? new te::exponential() : new te::exponential(a);
		if (r.b(0.2)) { p->l = a = r.u(-5, 5); }
		e.F.reset(p); e.name = "exponential"; e.sol = [p](double t) { return p->sol(t); };
		e.f = [=](const V &z) { return V{a * z[0]}; }; any(1); break; }
	case 1: {
		auto *p = new te::harmonic(a);
		e.F.reset(p); e.name = "harmonic"; e.sol = [p](double t) { return p->sol(t); };
		e.f = [=](const V &z) { return V{a * z[1], -a * z[0]}; }; any(2); break; }
	case 2: {
		bool def = r.b(0.1); if (def) b = 0.5;
		auto *p = def ? new te::vdpol() : new te::vdpol(b);
		e.F.reset(p); e.name = "vdpol";
		e.f = [=](const V &z) { return V{z[1], ((1 - z[0] * z[0]) * z[1] - z[0]) / b}; }; any(2); break; }
	case 3: {
		bool def = r.b(0.1); if (def) { b = 1; c = 2.5; }
		auto *p = def ? new te::bruss() : new te::bruss(b, c);
		e.F.reset(p); e.name = "bruss";
		e.f = [=](const V &z) { return V{b + z[0] * z[0] * z[1] - (c + 1) * z[0], c * z[0] - z[0] * z[0] * z[1]}; }; any(2); break; }
	case 4: {
		auto *p = new te::rober();
		e.F.reset(p); e.name = "rober";
		e.f = [=](const V &z) { ld u = 0.04L * z[0], v = 1e4L * z[1] * z[2], w = 3e7L * z[1] * z[1]; return V{v - u, u - v - w, w}; };
		any(3); if (r.b()) { y[1] *= 1e-5; yscale = 1e-3; } break; }
	case 5: {
		auto *p = new te::dimer(b);
		e.F.reset(p); e.name = "dimer";
		e.f = [=](const V &z) { ld k = b * z[0] * z[0] - z[1] / b; return V{-2 * k, k}; }; any(2); break; }
	case 6: {
		auto *p = new te::stiff_eq();
		e.F.reset(p); e.name = "stiff_eq"; e.sol = [p](double t) { return p->sol(t); };
		e.f = [=](const V &z) { return V{z[1], -1000 * z[0] - 1001 * z[1]}; }; any(2); break; }
	case 7: {
		double s = 10, rho = 28, beta = 8.0 / 3;
		bool def = r.b(0.1);
		if (!def) { s = a; rho = b; beta = c; }
		auto *p = def ? new te::lorenz() : new te::lorenz(s, rho, beta);
		e.F.reset(p); e.name = "lorenz";
		e.f = [=](const V &z) { return V{s * (z[1] - z[0]), z[0] * (rho - z[2]) - z[1], z[0] * z[1] - beta * z[2]}; }; any(3); break; }
	case 8: {
		double d = r.logu(1e-3, 1e3);
		auto *p = new te::kinetic_4(b, c, d);
		e.F.reset(p); e.name = "kinetic_4";
		// monomer + i-mer <-> (i+1)-mer, rate 1 forward and b_(i+1) backward
		e.f = [=](const V &z) {
			ld k1 = z[0] * z[0] - b * z[1], k2 = z[0] * z[1] - c * z[2], k3 = z[0] * z[2] - d * z[3];
			return V{-2 * k1 - k2 - k3, k1 - k2, k2 - k3, k3}; };
		any(4); break; }
	default: {
		double m[3] = {1, 1, 1};
		te::three_body *p;
		if (r.b(0.1)) p = new te::three_body();
		else { for (auto &x : m) x = r.logu(0.05, 20); p = new te::three_body(m[0], m[1], m[2]); }
		if (r.b(0.3)) { for (auto &x : m) x = r.logu(0.05, 20); p->set_m1(m[0]); p->set_m2(m[1]); p->set_m3(m[2]); }
		e.F.reset(p); e.name = "three_body";
		double m0 = m[0], m1 = m[1], m2 = m[2];
		e.f = [=](const V &z) {
			ld M[3] = {m0, m1, m2};
			V d(12, 0);
			for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) d[2 * i + k] = z[6 + 2 * i + k] / M[i];
			for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
				ld dx = z[2 * j] - z[2 * i], dy = z[2 * j + 1] - z[2 * i + 1], r3 = std::pow(dx * dx + dy * dy, 1.5L);
				d[6 + 2 * i] += M[i] * M[j] * dx / r3; d[7 + 2 * i] += M[i] * M[j] * dy / r3;
			}
			return d; };
		for (;;) { // apart from each other
			any(12);
			ld m = 1e9;
			for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) m = std::min(m, std::hypot(y[2 * i] - y[2 * j], y[2 * i + 1] - y[2 * j + 1]));
			if (m < 0.05) continue;
			yscale = std::min<ld>(1, m);
			break;
		}
		V q(y);
		ld T = 0, U = 0, M[3] = {m0, m1, m2};
		for (int i = 0; i < 3; ++i) T += (y[6 + 2 * i] * y[6 + 2 * i] + y[7 + 2 * i] * y[7 + 2 * i]) / (2 * M[i]);
		for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) U -= M[i] * M[j] / std::hypot(y[2 * i] - y[2 * j], y[2 * i + 1] - y[2 * j + 1]);
		vec yd(12); for (int i = 0; i < 12; ++i) yd(i) = y[i];
		double t = p->kin_energy(yd), u = p->pot_energy(yd);
		std::string d = cat("three_body m=", m0, " ", m1, " ", m2, " y=", yd);
		RTM_CHECK(std::fabs(t - T) <= 1e-12 * T, "kinetic-energy/three_body", cat(d, ": ", t, " instead of ", (double)T));
		RTM_CHECK(std::fabs(u - U) <= 1e-10 * std::fabs(U), "potential-energy/three_body", cat(d, ": ", u, " instead of ", (double)U));
		rep().count("energies");
		break; }
	}
	int n = e.dim = y.size();
	vec yd(n);
	for (int i = 0; i < n; ++i) { yd(i) = double(y[i]); y[i] = yd(i); }
	double t = r.u(-10, 10), s2 = r.u(-10, 10);
	e.d = cat(e.name, " a=", a, " b=", b, " c=", c, " t=", t, " y=", yd);
	rep().context = e.d;
	functor &F = *e.F;
	vec f = F.fun(t, yd);
	V g = e.f(y);
	RTM_CHECK((int)f.n_elem == n, cat("size/", e.name), e.d);
	if ((int)f.n_elem != n) return;
	std::vector<V> J = derivative(e.f, y, yscale);
	for (int i = 0; i < n; ++i) {
		ld scale = 0;
		for (int j = 0; j < n; ++j) scale += std::fabs(J[i][j]) * (std::fabs(y[j]) + yscale);
		scale += std::fabs(g[i]) + 1e-300L;
		RTM_CHECK(std::fabs(f(i) - g[i]) <= 1e-11 * scale, cat("right-hand-side/", e.name, "[", i, "]"), cat(e.d, ": ", f(i), " instead of ", double(g[i])));
		rep().count("components");
	}
	mat M = F.jac(t, yd);
	bool sz = (int)M.n_rows == n && (int)M.n_cols == n;
	RTM_CHECK(sz, cat("size/", e.name), e.d);
	if (!sz) return;
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
		ld scale = 0;
		for (int k = 0; k < n; ++k) scale = std::max(scale, std::fabs(J[i][k]) * (k == j ? 1 : 1e-4L));
		ld tol = e.name == "three_body" ? 1e-5L : 1e-9L; // polynomials: the difference formula is exact
		// rounding of the difference formula
		ld sum = std::fabs(g[i]); for (int k = 0; k < n; ++k) sum += std::fabs(J[i][k]) * std::fabs(y[k]);
		RTM_CHECK(std::fabs(M(i, j) - J[i][j]) <= tol * scale + 1e-14L * sum / yscale, cat("jacobi-matrix/", e.name),
		          cat(e.d, ": entry (", i, ",", j, ") ", M(i, j), " instead of ", double(J[i][j])));
		rep().count("jacobi-entries");
	}
	// Autonomous, without memory, and compute() is both.
	vec f2 = F.fun(s2, yd); mat M2 = F.jac(s2, yd), M3(n, n, arma::fill::zeros), M4(n, n);
	M4.fill(7);
	RTM_CHECK(same_bits(f, f2) && same_bits(vec(arma::vectorise(M)), vec(arma::vectorise(M2))), cat("depends-on-time/", e.name), e.d);
	vec f3 = F.compute(t, yd, M3, true), f4 = F.compute(t, yd, M4, false);
	RTM_CHECK(same_bits(f, f3) && same_bits(f, f4) && same_bits(vec(arma::vectorise(M)), vec(arma::vectorise(M3))), cat("compute/", e.name), e.d);
	RTM_CHECK(arma::all(arma::vectorise(M4) == 7), cat("compute/", e.name), cat(e.d, " calculated the Jacobi matrix"));
	rep().count("computes");
	if (e.sol) {
		// The published solution, and its initial value.
		double T = e.name == "stiff_eq" ? r.logu(1e-5, 30) : r.u(-10, 10) / std::max(1.0, std::fabs(a));
		if (r.b(0.05)) T = 0;
		vec x = e.sol(T);
		std::vector<ld> w;
		if (e.name == "exponential") w = {std::exp((ld)a * T)};
		else if (e.name == "harmonic") w = {std::sin((ld)a * T), std::cos((ld)a * T)};
		else w = {(1000 * std::exp(-(ld)T) - std::exp(-1000 * (ld)T)) / 999, 1000 * (std::exp(-1000 * (ld)T) - std::exp(-(ld)T)) / 999};
		RTM_CHECK((int)x.n_elem == n, cat("size/", e.name), e.d);
		for (int i = 0; i < n && (int)x.n_elem == n; ++i)
			RTM_CHECK(std::fabs(x(i) - w[i]) <= 1e-12L * (1 + std::fabs(w[i])), cat("solution/", e.name), cat(e.d, " at ", T, ": ", x, " instead of ", double(w[i]), " in component ", i));
		rep().count("solutions");
	}
	rep().count(cat("equation/", e.name));
	rep().nontrivial(e.d); rep().sample(e.d);
}
