// C04: linear stability. On y' = A y the methods multiply by their stability
// function; implicit methods never amplify a stable mode, whatever the step.
#include "common.hpp"
#include <complex>
using namespace rtm;
typedef std::complex<double> cd;

long n_cases(bool th) { return th ? 300000 : 12000; }

static cd R(const ref::Tableau &T, cd z, double &cond)
{
	int s = T.b.size();
	arma::cx_mat M(s, s);
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) M(i, j) = cd(i == j) - z * T.A[i][j];
	cond = arma::cond(M);
	arma::cx_vec e(s, arma::fill::ones), x;
	if (!arma::solve(x, M, e)) { cond = 1e300; return 0; }
	cd r = 0;
	for (int i = 0; i < s; ++i) r += T.b[i] * x(i);
	return 1.0 + z * r;
}

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	const ref::Tableau &T = tableau(m);
	bool gauss = std::strncmp(m.name, "GAUSS", 5) == 0;
	// Blocks lambda = a+ib as [[a,-b],[b,a]], plus real ones.
	int nb = r.i(1, 3);
	std::vector<cd> lam;
	std::vector<int> pos;
	double h = r.logu(1e-3, 10);
	int n = 0;
	int kind = r.i(0, 3); // 0 moderate, 1 stiff left half plane, 2 imaginary axis, 3 mildly unstable/stable mix
	for (int k = 0; k < nb; ++k) {
		double mag = kind == 1 ? r.logu(1, m.implicit ? 1e6 : 30) : r.logu(1e-2, m.implicit && kind == 2 ? 100 : 3);
		double ang = kind == 2 ? M_PI / 2 : kind == 3 ? r.u(0, M_PI) : r.u(M_PI / 2, M_PI);
		if (kind == 3) mag = std::min(mag, 0.5);
		if (r.b(0.3) && kind != 2) ang = M_PI;
		cd z = std::polar(mag, ang);
		if (kind == 2) z = cd(0, mag);
		if (ang == M_PI) z = cd(-mag, 0);
		lam.push_back(z / h); pos.push_back(n);
		n += z.imag() != 0 ? 2 : 1;
	}
	mat B(n, n, arma::fill::zeros);
	for (int k = 0; k < nb; ++k) {
		int i = pos[k];
		B(i, i) = lam[k].real();
		if (lam[k].imag() != 0) { B(i + 1, i + 1) = lam[k].real(); B(i, i + 1) = -lam[k].imag(); B(i + 1, i) = lam[k].imag(); }
	}
	// Half of the cases are seen through an orthogonal change of basis.
	mat Q = r.b() ? random_orthogonal(r, n) : mat(arma::eye(n, n));
	mat A = Q * B * Q.t();
	Problem p;
	p.name = "normal-linear"; p.dim = n;
	p.t0 = r.b() ? 0 : r.u(-10, 10);
	int steps = r.i(1, 6);
	p.t1 = p.t0 + h * steps;
	p.y0 = r.v(n, -1, 1);
	p.f = [A](double, const vec &y) { return vec(A * y); };
	p.J = [A](double, const vec &) { return A; };
	Config c;
	c.m = m; c.adaptive = false; c.dt = h; c.ntol = 1e-10; c.ndx = 1e-10; c.nmaxit = 40;
	c.nrefresh = r.pick(std::vector<int>{0, 1, 3, 10});
	Trace tr;
	Traj X = run(p, c, tr);
	std::string d = cat(m.name, " h=", h, " steps=", steps, " kind=", kind, " z=");
	for (auto &l : lam) d += cat("(", (l * h).real(), ",", (l * h).imag(), ")");
	if (X.status != SUCCESS) {
		// Linear stage equations always have a solution, which Newton finds at once.
		rep().violation(cat("not-solved/", m.name), cat(d, " status ", X.status, " after ", X.t.size() - 1, " steps"));
		return;
	}
	double err0 = 0;
	for (std::size_t k = 0; k + 1 < X.t.size(); ++k) {
		double hk = X.t[k + 1] - X.t[k];
		vec u = Q.t() * X.y[k], w = Q.t() * X.y[k + 1];
		double un = arma::norm(X.y[k]), wn = arma::norm(X.y[k + 1]);
		rep().count("steps");
		double zmax = 0;
		for (auto &l : lam) zmax = std::max(zmax, std::abs(l * hk));
		for (int q = 0; q < nb; ++q) {
			cd z = lam[q] * hk;
			double cond;
			cd g = R(T, z, cond);
			if (cond > 1e7) continue;
			cd uu = u(pos[q]), ww = w(pos[q]);
			if (lam[q].imag() != 0) { uu += cd(0, 1) * u(pos[q] + 1); ww += cd(0, 1) * w(pos[q] + 1); }
			double tol = (m.implicit ? 1e-9 + 2e-15 * cond * (1 + zmax) : 1e-12 * std::pow(1 + zmax, T.b.size())) * (1 + un) + 1e-9 * m.implicit + 1e-13 * zmax * un * (1 + std::fabs(p.t0) / hk);
			err0 = std::abs(ww - g * uu);
			RTM_CHECK(err0 <= tol, cat("stability-function/", m.name), cat(d, " z=(", z.real(), ",", z.imag(), ") |R|=", std::abs(g), " got ratio ", std::abs(ww) / std::abs(uu), " off by ", err0, " tol ", tol));
			rep().count("ratios");
			if (m.implicit && std::abs(z) > 1e3 && z.real() < -0.5 * std::abs(z) && !gauss) {
				RTM_CHECK(std::abs(ww) <= 400.0 / std::abs(z) * std::abs(uu) + tol, cat("not-damped/", m.name), cat(d, " ratio ", std::abs(ww) / std::abs(uu)));
				rep().count("L-stability");
			}
			if (gauss && kind == 2) {
				RTM_CHECK(std::fabs(std::abs(ww) - std::abs(uu)) <= tol, cat("norm-not-conserved/", m.name), cat(d, " ", std::abs(uu), " -> ", std::abs(ww)));
				rep().count("isometry");
			}
		}
		if (m.implicit && kind != 3) {
			double tol = 1e-9 + 1e-9 * un + 1e-13 * zmax * un;
			RTM_CHECK(wn <= un + tol, cat("grows/", m.name), cat(d, " |y| ", un, " -> ", wn));
			rep().count("A-stability");
		}
	}
	rep().nontrivial(d);
	rep().sample(cat(d, " -> ", X.t.size() - 1, " steps, last deviation from R(z): ", err0));
}
