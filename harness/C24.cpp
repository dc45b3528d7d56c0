// C24: BDF returns solutions of the backward differentiation formulas.
#include "multi.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 16000; }

static Problem cliff(Rng &r, int q, double &ts, double &dt) // after ts no implicit step has a solution
{
	Problem p;
	p.name = "cliff"; p.dim = r.i(1, 3);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(2, 4);
	double s = ts = p.t0 + (p.t1 - p.t0) * r.u(0.5, 0.8), K;
	dt = std::min((p.t1 - p.t0) / r.logu(3, 120), (s - p.t0) / (q + 2.5));
	K = r.logu(3, 1e3) / (0.4 * dt);
	int bad = r.i(0, p.dim - 1), kind = r.i(0, 5);
	p.y0 = r.v(p.dim, 0.1, 1);
	if (kind > 2) { // not a number, or infinite, in f or J or both
		double v = r.b() ? std::nan("") : r.b() ? HUGE_VAL : -HUGE_VAL;
		p.name = cat("cliff ", v, kind == 3 ? " f" : kind == 4 ? " J" : " f J");
		p.f = [=](double t, const vec &y) { vec d = -y; if (t > s && kind != 4) d(bad) = v; return d; };
		p.J = [=](double t, const vec &y) { mat J = -arma::eye(y.n_elem, y.n_elem); if (t > s && kind != 3) J(bad, bad) = v; return J; };
		return p;
	}
	p.f = [=](double t, const vec &y) { vec d = -y; if (t > s) d(bad) = K * (10 + y(bad) * y(bad)); return d; };
	p.J = [=](double t, const vec &y) { mat J = -arma::eye(y.n_elem, y.n_elem); if (t > s) J(bad, bad) = 2 * K * y(bad); return J; };
	return p;
}

void run_case(long id, Rng &r)
{
	Trace tr; tr.budget = 1000000;
	multistep::solver_options so;
	if (id % 50 == 0) { // orders that do not exist
		Problem p = p_any(r, false);
		Fun F(p, tr);
		so.order = r.pick(std::vector<int>{0, -1, -7, 7, 8, 100, -2147483647});
		auto s = multistep::bdf(F, p.t0, p.t1, p.y0, so, (p.t1 - p.t0) / 10);
		RTM_CHECK(s.status != SUCCESS && tr.nfun == 0 && tr.njac == 0, "wrong-order", cat("order ", so.order, " status ", s.status, " evaluations ", tr.nfun));
		rep().count("wrong-orders");
		return;
	}
	int q = r.i(1, 6);
	so.order = q;
	double ts = HUGE_VAL, dt = 0;
	bool exact = false, stiff = false, cl = false;
	Problem p;
	if (id % 20 == 1) { p = cliff(r, q, ts, dt); cl = true; }
	else if (r.b(0.25)) { p = p_stiff_linear(r); stiff = true; if (r.b()) q = so.order = r.i(1, 2); }
	else if (r.b(0.7)) { p = p_any_exact(r); exact = true; }
	else if (r.b(0.2)) { p = p_prothero(r, 10, 1e4); exact = true; }
	else p = r.b() ? p_nonlinear(r) : r.b() ? p_kinetics(r) : p_heat(r);
	double span = p.t1 - p.t0;
	if (cl) ;
	else if (r.b(0.15)) dt = span * r.u(0.4, 3) / (stiff || exact ? 1 : 5);
	else if (r.b(0.1)) dt = span / r.i(2, 40);
	else dt = span / r.logu(3, 120);
	bool resolved = p.lip * dt < 0.3;
	std::string d = cat(pdesc(p), " order ", q, " dt=", dt);
	rep().context = d;
	Fun F(p, tr);
	auto s = multistep::bdf(F, p.t0, p.t1, p.y0, so, dt);
	dt = used_dt(p.t0, p.t1, dt);
	rep().count("runs");
	if (!check_grid(s, p, dt, q + 1, d)) return;
	std::vector<long double> a; long double beta;
	bdf_coeffs(q, a, beta);
	std::size_t N = s.t_vals.size();
	if (cl) {
		RTM_CHECK(s.status != SUCCESS, "unsolvable", cat(d, " cliff at ", ts, " succeeded"));
		RTM_CHECK(s.t_vals.back() <= ts && s.t_vals.back() + dt * (1 + 1e-9) > ts, "unsolvable", cat(d, " cliff at ", ts, " last row ", s.t_vals.back()));
		rep().count("unsolvable");
	} else if (s.status != SUCCESS) {
		rep().count("failed");
		// Linear problems and resolved steps are always solvable.
		vec y = s.y_vals.back();
		bool must = (p.linear || p.name == "quadrature" || p.name == "prothero" || p.name == "prothero-stiff" || resolved) && arma::norm(y, "inf") < 1e4;
		double h = dt * double(beta);
		if (must && !stiff) { // unless the system is nearly singular
			mat I = arma::eye(p.dim, p.dim) - h * p.J(s.t_vals.back() + dt, y);
			must = arma::rcond(I) > 1e-3;
		}
		RTM_CHECK(!must, "failed", cat(d, " status ", s.status, " last row ", N - 1, " ", y));
	}
	if (exact && p.lip * dt < 2) check_startup(s, p, q + 1, std::exp(std::min(8.0, p.lip * dt * q)), d);
	else if (exact && p.stiff) check_startup(s, p, q + 1, 10, d);
	for (std::size_t n = q; n + 1 < N; ++n) {
		double t = s.t_vals[n + 1];
		const vec &y = s.y_vals[n + 1];
		vec f = p.f(t, y), w = y - dt * double(beta) * f;
		double scale = arma::norm(y, "inf") + dt * double(beta) * arma::norm(f, "inf");
		for (int k = 0; k < q; ++k) { w += double(a[k]) * s.y_vals[n - k]; scale += std::fabs(double(a[k])) * arma::norm(s.y_vals[n - k], "inf"); }
		mat J = p.J(t, y);
		double nj = 1 + dt * double(beta) * arma::norm(J, "inf");
		double e = 1e-6 * dt, slope = dt * arma::norm(p.f(t - e, y) - f, "inf") / e;
		if (!(scale < 1e100)) break;
		double tol = 1e-9 * nj + 1e-12 * scale * std::sqrt(nj) + slope * 1e-15 * N * (std::fabs(p.t0) + std::fabs(p.t1));
		double err = arma::norm(w, "inf");
		if (!(err <= tol)) { rep().violation("formula", cat(d, ": row ", n + 1, " is ", y, ", residual ", err, ", tolerance ", tol)); break; }
		rep().count("steps");
		if (q == 1 && p.stiff && p.linear)
			RTM_CHECK(arma::norm(y) <= arma::norm(s.y_vals[n]) * (1 + 1e-9) + 1e-8, "unstable", cat(d, ": row ", n + 1, " ", y, " after ", s.y_vals[n]));
	}
	if (stiff && q <= 2 && N > 3) {
		double m = std::max(arma::norm(s.y_vals[0]), std::max(arma::norm(s.y_vals[1]), arma::norm(s.y_vals[2])));
		for (auto &y : s.y_vals) RTM_CHECK(arma::norm(y) <= 6 * m + 1e-7, "unstable", cat(d, ": ", y));
		rep().count("stiff-bounded");
	}
	if (exact && !p.stiff && p.lip * dt < 0.1 && s.status == SUCCESS) {
		vec x = p.exact(s.t_vals[N - 1]);
		double e = arma::norm(s.y_vals[N - 1] - x, "inf");
		double b = 100 * (1 + arma::norm(x, "inf") + arma::norm(p.y0, "inf")) * std::exp(std::min(6.0, p.lip * span)) * (std::pow(std::max(3.0, p.lip) * dt, q) + 1e-7);
		RTM_CHECK(e <= b, "inaccurate", cat(d, ": last row ", s.y_vals[N - 1], " exact ", x, " bound ", b));
		rep().count("accuracy");
	}
	if (N > (std::size_t)q + 2) { rep().nontrivial(d); rep().sample(d); }
}
