// C03: every method has the order it declares (main and embedded formula).
#include "common.hpp"
using namespace rtm;

static long n_static() { return all_methods().size() + 2; }
long n_cases(bool th) { return n_static() + (th ? 24000 : 1600); }

// Rooted trees up to order 5 as (sigma-free) order conditions b.Phi = 1/gamma.
struct Cond { int order; const char *name; vec phi; double rhs; };
static std::vector<Cond> conditions(const mat &A, const vec &c)
{
	vec e(c.n_elem, arma::fill::ones);
	vec c2 = c % c, c3 = c2 % c, c4 = c3 % c, Ac = A * c, Ac2 = A * c2, AAc = A * Ac, AcAc = A * vec(c % Ac), Ac3 = A * c3, AAc2 = A * Ac2, AAAc = A * AAc;
	return {{1, "e", e, 1}, {2, "c", c, 1 / 2.}, {3, "c^2", c2, 1 / 3.}, {3, "Ac", Ac, 1 / 6.},
	        {4, "c^3", c3, 1 / 4.}, {4, "c.Ac", vec(c % Ac), 1 / 8.}, {4, "Ac^2", Ac2, 1 / 12.}, {4, "AAc", AAc, 1 / 24.},
	        {5, "c^4", c4, 1 / 5.}, {5, "c^2.Ac", vec(c2 % Ac), 1 / 10.}, {5, "c.Ac^2", vec(c % Ac2), 1 / 15.},
	        {5, "c.AAc", vec(c % AAc), 1 / 30.}, {5, "Ac.Ac", vec(Ac % Ac), 1 / 20.}, {5, "Ac^3", Ac3, 1 / 20.},
	        {5, "A(c.Ac)", AcAc, 1 / 40.}, {5, "AAc^2", AAc2, 1 / 60.}, {5, "AAAc", AAAc, 1 / 120.}};
}

template <typename SC> static void coefficients(const Method &m, const SC &sc)
{
	const ref::Tableau &T = tableau(m);
	std::size_t s = T.b.size();
	RTM_CHECK(sc.order == m.order && sc.order2 == m.order2, cat("declared-order/", m.name), cat("order=", sc.order, " order2=", sc.order2));
	if (sc.b.n_elem != s || sc.c.n_elem != s || sc.A.n_rows != s || sc.A.n_cols != s) { rep().violation(cat("tableau-size/", m.name), cat("s=", s)); return; }
	double worst = 0;
	for (std::size_t i = 0; i < s; ++i) {
		worst = std::max(worst, std::fabs(sc.b(i) - T.b[i]));
		worst = std::max(worst, std::fabs(sc.c(i) - T.c[i]));
		for (std::size_t j = 0; j < s; ++j) worst = std::max(worst, std::fabs(sc.A(i, j) - T.A[i][j]));
	}
	RTM_CHECK(worst < 2e-14, cat("tableau/", m.name), cat("differs from the published method by ", worst));
	for (auto &q : conditions(sc.A, sc.c)) {
		rep().count("order-conditions");
		if (q.order <= sc.order)
			RTM_CHECK(std::fabs(arma::dot(sc.b, q.phi) - q.rhs) < 1e-13, cat("order-condition/", m.name, "/", q.name), cat("off by ", arma::dot(sc.b, q.phi) - q.rhs));
	}
	for (int q = 1; q <= sc.order; ++q) {
		double v = arma::dot(sc.b, arma::pow(sc.c, q - 1));
		RTM_CHECK(std::fabs(v - 1.0 / q) < 1e-13, cat("quadrature/", m.name, "/", q), cat("off by ", v - 1.0 / q));
		rep().count("order-conditions");
	}
	if (sc.b2.n_elem) {
		if (sc.b2.n_elem != s) { rep().violation(cat("embedded-size/", m.name), ""); return; }
		// The current value enters as a stage at c=0 with weight gamma.
		mat A(s + 1, s + 1, arma::fill::zeros);
		A.submat(1, 1, s, s) = sc.A;
		vec c(s + 1, arma::fill::zeros), b(s + 1);
		c.tail(s) = sc.c; b(0) = sc.gamma; b.tail(s) = sc.b2;
		for (auto &q : conditions(A, c)) if (q.order <= sc.order2) {
			rep().count("order-conditions");
			RTM_CHECK(std::fabs(arma::dot(b, q.phi) - q.rhs) < 1e-11, cat("embedded-condition/", m.name, "/", q.name), cat("off by ", arma::dot(b, q.phi) - q.rhs));
		}
		for (int q = 1; q <= sc.order2; ++q) {
			double v = arma::dot(b, arma::pow(c, q - 1));
			RTM_CHECK(std::fabs(v - 1.0 / q) < 1e-11, cat("embedded-quadrature/", m.name, "/", q), cat("off by ", v - 1.0 / q));
		}
		vec db = b; db.tail(s) -= sc.b;
		RTM_CHECK(arma::norm(db) > 1e-3, cat("embedded-equals-main/", m.name), "no error estimate");
		// If it were as accurate as the main formula it would estimate nothing.
		double top = 0;
		for (int q = 1; q <= sc.order; ++q) top = std::max(top, std::fabs(arma::dot(b, arma::pow(c, q - 1)) - 1.0 / q));
		for (auto &q : conditions(A, c)) if (q.order <= sc.order) top = std::max(top, std::fabs(arma::dot(b, q.phi) - q.rhs));
		for (int q = 0; q < 12; ++q) // trees [[tau^q]], of higher order
			top = std::max(top, std::fabs(arma::dot(b, A * arma::pow(c, q)) - 1.0 / ((q + 1) * (q + 2))));
		RTM_CHECK(top > 1e-8, cat("embedded-too-accurate/", m.name), "");
		// On y' = g(t) only the quadratures differ, so they must.
		double qd = 0;
		for (int q = 1; q <= 2 * (int)s + 1; ++q) qd = std::max(qd, std::fabs(arma::dot(b.tail(s), arma::pow(sc.c, q - 1)) + (q == 1 ? b(0) : 0) - arma::dot(sc.b, arma::pow(sc.c, q - 1))));
		RTM_CHECK(qd > 1e-8, cat("embedded-blind-to-quadrature/", m.name), "");
		if (m.implicit && s % 2 == 1) {
			// gamma is the real eigenvalue of A, so that I - h*gamma*J shares its LU.
			arma::cx_vec ev = arma::eig_gen(sc.A);
			double d = 1e9;
			for (auto &z : ev) d = std::min(d, std::abs(z - sc.gamma));
			RTM_CHECK(d < 1e-5, cat("gamma/", m.name), cat("distance to the spectrum of A ", d));
		}
	} else {
		RTM_CHECK(!m.adaptive, cat("embedded-missing/", m.name), "");
	}
	rep().nontrivial(m.name);
}

static vec final_value(const Problem &p, const Method &m, int n, bool &ok)
{
	Config c; c.m = m; c.adaptive = false; c.dt = (p.t1 - p.t0) / n * (1 + 1e-13);
	c.ntol = 1e-14; c.ndx = 1e-14; c.nmaxit = 100; c.nrefresh = 3;
	Trace tr;
	Traj T = run(p, c, tr);
	// The stage equations may bottom out at rounding above 1e-14.
	if (T.status != SUCCESS) {
		c.ntol = 3e-13; c.ndx = 3e-13;
		T = run(p, c, tr);
	}
	ok = T.status == SUCCESS;
	return T.y.back();
}

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	if (id < (long)ms.size()) {
		if (ms[id].implicit) coefficients(ms[id], irk::get_coefficients(ms[id].id));
		else coefficients(ms[id], erk::get_coefficients(ms[id].id));
		return;
	}
	if (id < n_static()) {
		Method m = id == (long)ms.size() ? Method{"LOBATTO_IIIA_43", irk::LOBATTO_IIIA_43, true, 4, 2, false, true}
		                                 : Method{"LOBATTO_IIIA_127", irk::LOBATTO_IIIA_127, true, 12, 7, false, false};
		irk::solver_coeffs sc = irk::get_coefficients(m.id);
		sc.b2.reset(); // unusable methods (see C02): only the main formula
		coefficients(m, sc);
		return;
	}
	const Method &m = ms[id % ms.size()];
	Problem p;
	switch (r.i(0, 4)) {
	case 0: p = p_manufactured(r); break;
	case 1: p = p_oscillator(r); break;
	case 2: p = p_rational(r); break;
	case 3: p = p_linear(r); break;
	default: p = p_logistic(r); break;
	}
	p.t1 = p.t0 + r.u(1, 2);
	double scale = 1 + arma::norm(p.y0, "inf") + std::fabs(p.t0) * 0.01;
	double floor_ = (m.implicit ? 1e-10 : 1e-12) * scale, ceil_ = m.order >= 9 ? 1e-5 : m.order >= 5 ? 1e-4 : 1e-3;
	ceil_ *= scale;
	vec ye = p.exact(p.t1);
	double best = -100;
	int pairs = 0;
	std::string log;
	double nf = m.order >= 9 ? 1 : m.order >= 5 ? 2 : 4;
	double pe = 0, pn = 0;
	for (int k = 0; k < 24; ++k, nf *= 1.35) {
		int n = int(nf + 0.5);
		if (n == pn) continue;
		bool ok;
		double e = arma::norm(final_value(p, m, n, ok) - ye, "inf");
		if (!ok || !(e < ceil_)) { pe = 0; continue; }
		if (e < floor_) break;
		if (n > (m.implicit ? 400 : 4000)) break;
		log += cat(" n=", n, ":", e);
		if (pe > 0) { double sl = std::log(pe / e) / std::log(n / pn); best = std::max(best, sl); ++pairs; rep().count("slopes"); }
		pe = e; pn = n;
	}
	// Judge only when the asymptotic regime was seen.
	if (pairs >= 3) {
		RTM_CHECK(best > (m.order <= 6 ? m.order - 0.5 : 0.5 * m.order), cat("convergence/", m.name), cat(pdesc(p), " steepest slope ", best, " of", log));
		rep().count("judged");
		rep().count(cat("judged/", m.name));
		rep().nontrivial(pdesc(p) + m.name);
		rep().sample(cat(m.name, " on ", pdesc(p), " steepest slope ", best, ":", log));
	}
}
