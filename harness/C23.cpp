// C23: Adams-Bashforth returns the multistep solution on its grid.
#include "multi.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 25000; }

void run_case(long id, Rng &r)
{
	Trace tr; tr.budget = 2000000;
	if (id % 50 == 0) { // orders that do not exist
		Problem p = p_any(r, false);
		Fun F(p, tr);
		multistep::solver_options so; so.order = r.pick(std::vector<int>{0, -1, -7, 6, 7, 100, -2147483647});
		auto s = multistep::adams_bashforth(F, p.t0, p.t1, p.y0, so, (p.t1 - p.t0) / 10);
		RTM_CHECK(s.status != SUCCESS && tr.nfun == 0, "wrong-order", cat("order ", so.order, " status ", s.status, " evaluations ", tr.nfun));
		rep().count("wrong-orders");
		return;
	}
	int q = r.i(1, 5);
	bool exact = r.b(0.7);
	Problem p = exact ? p_any_exact(r) : r.b() ? p_nonlinear(r) : p_kinetics(r);
	double span = p.t1 - p.t0, dt;
	if (r.b(0.1)) dt = span * r.u(0.4, 3); // few steps: the start-up covers all or most
	else if (r.b(0.1)) dt = span / r.i(1, 64); // divides
	else dt = span / std::min(600.0, std::max(r.logu(1.5, 300), p.lip * span * r.u(1, 4)));
	if (r.b(0.1)) { p.t0 += 1e3; p.t1 = p.t0 + span; auto f = p.f; auto J = p.J; auto x = p.exact; double sh = 1e3;
		p.f = [=](double t, const vec &y) { return f(t - sh, y); }; p.J = [=](double t, const vec &y) { return J(t - sh, y); };
		if (x) p.exact = [=](double t) { return x(t - sh); }; }
	std::string d = cat(pdesc(p), " order ", q, " dt=", dt);
	rep().context = d;
	tr.log = true;
	Fun F(p, tr);
	multistep::solver_options so; so.order = q;
	auto s = multistep::adams_bashforth(F, p.t0, p.t1, p.y0, so, dt);
	dt = used_dt(p.t0, p.t1, dt);
	rep().count("runs");
	if (s.status != SUCCESS) { // only a blow-up excuses
		rep().count("failed");
		vec y = s.y_vals.empty() ? p.y0 : s.y_vals.back();
		RTM_CHECK(arma::norm(y, "inf") > 1e8 || !y.is_finite() || s.t_vals.size() < (std::size_t)q, "failed", cat(d, " status ", s.status, " last ", y));
	}
	if (!check_grid(s, p, dt, q, d)) return;
	double amp = std::exp(std::min(8.0, p.lip * dt * q));
	if (exact) check_startup(s, p, q, amp, d);
	auto C = ab_coeffs(q);
	for (std::size_t n = q - 1; n + 1 < s.t_vals.size(); ++n) {
		vec w = s.y_vals[n]; double scale = arma::norm(w, "inf"), slope = 0;
		for (int k = 0; k < q; ++k) {
			double t = s.t_vals[n] - k * dt;
			vec f = p.f(t, s.y_vals[n - k]);
			w += dt * double(C[k]) * f;
			scale += dt * std::fabs(double(C[k])) * arma::norm(f, "inf");
			// times agree to rounding only, and so do their f
			double e = 1e-6 * dt;
			slope += dt * std::fabs(double(C[k])) * arma::norm(p.f(t + e, s.y_vals[n - k]) - f, "inf") / e;
		}
		if (!w.is_finite() || scale > 1e200) break;
		double tol = 1e-13 * scale + slope * (1e-15 * s.t_vals.size() * (std::fabs(p.t0) + std::fabs(p.t1)) + 1e-15);
		double err = arma::norm(s.y_vals[n + 1] - w, "inf");
		if (!(err <= tol)) { rep().violation("formula", cat(d, ": row ", n + 1, " is ", s.y_vals[n + 1], ", the formula gives ", w, ", tolerance ", tol)); break; }
		rep().count("steps");
	}
	// Accuracy as a whole, where steps resolve the problem.
	if (exact && p.lip * dt < 0.1 && s.status == SUCCESS) {
		std::size_t n = s.t_vals.size() - 1;
		vec x = p.exact(s.t_vals[n]);
		double e = arma::norm(s.y_vals[n] - x, "inf");
		double b = 50 * (1 + arma::norm(x, "inf") + arma::norm(p.y0, "inf")) * std::exp(std::min(6.0, p.lip * span)) * (std::pow(std::max(3.0, p.lip) * dt, q) + 1e-7);
		RTM_CHECK(e <= b, "inaccurate", cat(d, ": last row ", s.y_vals[n], " exact ", x, " bound ", b));
		rep().count("accuracy");
	}
	if (s.t_vals.size() > (std::size_t)q + 1) { rep().nontrivial(d); rep().sample(d); }
}
