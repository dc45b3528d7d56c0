// C20: dense output. Weights at intermediate times, the collocation
// polynomial behind them, and the symbolic expansion it is derived with.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 20000; }

// b(theta) integrates every polynomial of degree < s from 0 to theta exactly.
static void check_weights(const std::function<vec(double)> &b, const vec &c, double theta, const std::string &key, const std::string &d, double cond)
{
	vec w = b(theta);
	RTM_CHECK(w.n_elem == c.n_elem, key, d);
	if (w.n_elem != c.n_elem) return;
	for (arma::uword m = 0; m < c.n_elem; ++m) {
		double s = 0, mag = 0;
		for (arma::uword j = 0; j < c.n_elem; ++j) { double x = w(j) * std::pow(c(j), int(m)); s += x; mag += std::fabs(x); }
		double want = std::pow(theta, int(m + 1)) / (m + 1);
		RTM_CHECK(std::fabs(s - want) <= 1e-14 * (cond + mag + 1), key, cat(d, " theta=", theta, " degree ", m, ": ", s, " instead of ", want));
		rep().count("moments");
	}
}

static double conditioning(const mat &B, const vec &c, double theta)
{
	double s = 0, cm = std::max(1.0, arma::abs(c).max()), q = 0;
	for (arma::uword i = 0; i < B.n_rows; ++i) for (arma::uword j = 0; j < B.n_cols; ++j) s += std::fabs(B(i, j)) * std::pow(std::max(1.0, std::fabs(theta)), double(B.n_cols));
	// The coefficients themselves come from products of differences.
	for (arma::uword i = 0; i < c.n_elem; ++i) { double p = 1; for (arma::uword j = 0; j < c.n_elem; ++j) if (i != j) p *= (std::fabs(c(j)) + std::max(1.0, std::fabs(theta))) / std::fabs(c(i) - c(j)); q += p; }
	return (s + q) * std::pow(cm, double(c.n_elem)) * c.n_elem;
}

static void collocation(Rng &r)
{
	int n = r.i(1, 7);
	vec c(n);
	for (int k = 0; k < n; ++k) for (;;) {
		c(k) = r.b(0.1) ? r.i(0, 1) : r.u(-0.2, 1.2);
		bool ok = true;
		for (int j = 0; j < k; ++j) ok = ok && std::fabs(c(j) - c(k)) > 0.06;
		if (ok) break;
	}
	if (r.b(0.5)) c = arma::sort(c);
	std::string d = cat("points ", c);
	rep().context = d;
	mat B = irk::collocation_interpolate_coeffs(c);
	RTM_CHECK((int)B.n_rows == n && (int)B.n_cols == n, "coefficient-size", d);
	if ((int)B.n_rows != n || (int)B.n_cols != n) return;
	irk::solver_coeffs sc; sc.b.zeros(n); sc.b_interp = B;
	for (int k = 0; k < 4; ++k) {
		double th = k == 0 ? 1.0 : k == 1 ? c(r.i(0, n - 1)) : r.u(-0.3, 1.5);
		check_weights([&](double t) { return irk::project_b(t, sc); }, c, th, "collocation", d, conditioning(B, c, th));
	}
	vec z = irk::project_b(0.0, sc);
	RTM_CHECK(arma::norm(z, "inf") == 0, "weights-at-start", cat(d, " ", z));
	// Directly from the matrix: highest power first.
	double th = r.u(0, 1);
	vec w(n, arma::fill::zeros);
	for (int j = 0; j < n; ++j) for (int q = 0; q < n; ++q) w(j) += B(j, q) * std::pow(th, n - q);
	check_weights([&](double) { return w; }, c, th, "collocation-matrix", d, conditioning(B, c, th));
	rep().count("point-sets");
	if (n > 1) { rep().nontrivial(d); rep().sample(cat(d, " coefficients ", vec(arma::vectorise(B)))); }
}


static void method(Rng &r, long id)
{
	const Method &m = irk_methods()[id % irk_methods().size()];
	irk::solver_coeffs sc = irk::get_coefficients(m.id);
	const ref::Tableau &T = tableau(m);
	std::string d = m.name;
	rep().context = d;
	bool has = sc.b_interp.n_elem > 0;
	if (std::string(m.name).find("RADAU") == 0) RTM_CHECK(has, cat("no-dense-output/", m.name), d);
	if (!has) return;
	int s = T.b.size();
	vec c(T.c), b(T.b);
	double th = r.u(-0.2, 1.3);
	double cond = conditioning(sc.b_interp, c, th);
	auto pb = [&](double t) { return irk::project_b(t, sc); };
	RTM_CHECK(arma::norm(pb(0), "inf") == 0, cat("weights-at-start/", m.name), d);
	RTM_CHECK(arma::norm(pb(1) - b, "inf") <= 1e-14 * conditioning(sc.b_interp, c, 1), cat("weights-at-end/", m.name), cat(d, " ", pb(1)));
	check_weights(pb, c, th, cat("weights/", m.name), d, cond);
	if (std::string(m.name).find("LOBATTO_IIIC") != 0)
		for (int i = 0; i < s; ++i) {
			vec w = pb(T.c[i]);
			for (int j = 0; j < s; ++j) RTM_CHECK(std::fabs(w(j) - T.A[i][j]) <= 1e-14 * cond, cat("weights-at-stage/", m.name), cat(d, " stage ", i, ": ", w));
		}
	rep().count("method-weights");
	// Interpolate a trajectory.
	Problem p = r.b() ? p_linear(r) : r.b() ? p_oscillator(r) : p_quadrature(r);
	Config cf; cf.m = m; cf.adaptive = r.b();
	cf.rtol = cf.atol = r.logu(1e-8, 1e-4); cf.ntol = cf.ndx = 1e-12; cf.nmaxit = 300;
	double span = p.t1 - p.t0;
	cf.dt = std::min(span / r.u(1, 10), 0.7 / p.lip);
	cf.max_dt = 0.8 / p.lip;
	Trace tr;
	Traj X = run(p, cf, tr);
	d = pdesc(p) + " | " + cf.desc();
	RTM_CHECK(X.status == SUCCESS, cat("failed/", m.name), d);
	int n = p.dim;
	mat A = p.J(0, p.y0);
	for (std::size_t k = 0; k + 1 < X.t.size(); ++k) {
		double h = X.t[k + 1] - X.t[k];
		if ((int)X.stages[k + 1].n_elem != n * s) { rep().violation("stages-dimension", d); return; }
		mat K(X.stages[k + 1].memptr(), n, s);
		vec end = X.y[k] + h * K * pb(1);
		double sc0 = 1 + arma::norm(X.y[k], 2);
		RTM_CHECK(arma::norm(end - X.y[k + 1], 2) <= 1e-12 * sc0 * cond + 1e-10, cat("end-of-step/", m.name), cat(d, " k=", k, " off by ", arma::norm(end - X.y[k + 1], 2)));
		for (int q = 0; q < 2; ++q) {
			double t = r.u(), z = h * std::max(p.lip, 3.0), zz = 1;
			vec y = X.y[k] + h * K * pb(t), want;
			if (p.name == "quadrature") want = X.y[k] + p.exact(X.t[k] + t * h) - p.exact(X.t[k]);
			else want = arma::expmat(A * (t * h)) * X.y[k];
			// Collocation error is about z^(s+1)/(s+1)! times a modest constant.
			for (int i = 1; i <= s + 1; ++i) zz *= z / i;
			double lim = 20 * (s + 1) * zz * std::exp(z) * (sc0 + (p.name == "quadrature" ? 3 : 0)) + 1e-9;
			RTM_CHECK(arma::norm(y - want, 2) <= lim, cat("dense-output/", m.name), cat(d, " k=", k, " theta=", t, " off by ", arma::norm(y - want, 2), " allowed ", lim));
			rep().count("interpolated");
		}
	}
	rep().nontrivial(d); rep().sample(d);
}

static void expansion(Rng &r)
{
	auto rnd = [&r]() { irk::coeff_list c(r.i(0, 4)); for (auto &x : c) { x.resize(r.i(0, 3)); for (int &q : x) q = r.i(-3, 9); } return c; };
	irk::coeff_list a = rnd(), b = rnd(), c = rnd(), a0 = a, b0 = b;
	irk::coeff_list ab = irk::expand(a, b), want;
	std::ostringstream o;
	irk::operator<<(o, a);
	std::string d = "expand " + o.str();
	for (auto &x : a) for (auto &y : b) { want.push_back(x); want.back().insert(want.back().end(), y.begin(), y.end()); }
	irk::coeff_list sab = ab, sw = want;
	std::sort(sab.begin(), sab.end()); std::sort(sw.begin(), sw.end());
	RTM_CHECK(sab == sw, "expand", d);
	RTM_CHECK(ab == want, "expand-order", d);
	RTM_CHECK(a == a0 && b == b0, "expand-arguments", d);
	RTM_CHECK(irk::expand(irk::expand(a, b), c) == irk::expand(a, irk::expand(b, c)), "expand-associative", d);
	// Printed: every number, grouped.
	std::string s = o.str();
	irk::coeff_list back; int depth = 0; bool ok = true;
	std::string num;
	auto flush = [&]() { if (num.empty()) return; if (depth != 2 || back.empty()) ok = false; else back.back().push_back(std::atoi(num.c_str())); num.clear(); };
	for (char ch : s) {
		if (ch == '{') { flush(); if (++depth == 2) back.emplace_back(); }
		else if (ch == '}') { flush(); --depth; }
		else if (ch == '-' || (ch >= '0' && ch <= '9')) num += ch;
		else flush();
	}
	RTM_CHECK(ok && depth == 0 && back == a, "printed-list", d);
	rep().count("expansions");
	if (want.size() > 1) rep().nontrivial(d + cat(want.size()));
}

void run_case(long id, Rng &r)
{
	switch (id % 4) {
	case 0: collocation(r); break;
	case 1: case 2: method(r, id / 4); break;
	default: expansion(r);
	}
}
