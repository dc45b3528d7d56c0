// C07: step sizes honour dt, max_dt and the interval.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 20000; }

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	double span = p.t1 - p.t0;
	if (r.b(0.5)) c.max_dt = c.is_adaptive() ? span * r.logu(0.005, 1.5) : c.dt * r.logu(0.3, 3);
	if (r.b(0.1)) c.dt = span * r.u(1.0, 50);
	if (r.b(0.1) && c.max_dt > 0) c.dt = std::max(c.dt, c.max_dt * r.u(1, 5));
	if (!c.is_adaptive()) {
		double n = span / std::min(c.dt, c.max_dt > 0 ? c.max_dt : c.dt);
		if (n > 3000) { c.max_dt = 0; c.dt = span / r.u(1, 300); }
		// Sometimes a step that divides the interval (to rounding).
		if (r.b(0.2)) { c.dt = span / r.i(1, 64); c.max_dt = 0; }
	}
	Trace tr; tr.log = true;
	Traj X = run(p, c, tr);
	std::string d = pdesc(p) + " | " + c.desc();
	std::size_t n = X.t.size();
	if (n < 1) { rep().violation("empty", d); return; }
	double tol = ulp_tol(p.t0, p.t1);
	double want = std::min(c.dt, span);
	if (c.max_dt > 0) want = std::min(want, c.max_dt);
	rep().count("trajectories");
	for (std::size_t k = 1; k < n; ++k) {
		double h = X.t[k] - X.t[k - 1];
		rep().count("steps");
		if (c.max_dt > 0) RTM_CHECK(h <= c.max_dt * (1 + 1e-12) + tol, cat("max_dt/", m.implicit ? "irk" : "erk"), cat(d, " k=", k, " h=", h));
		RTM_CHECK(h <= span + tol, "longer-than-interval", cat(d, " k=", k, " h=", h));
	}
	// Not even an attempt may be longer than max_dt.
	if (c.max_dt > 0 && n > 1) {
		std::size_t row = 0;
		for (auto &e : tr.ev) {
			while (row + 1 < n && e.t > X.t[row + 1] + tol) ++row;
			RTM_CHECK(e.t <= X.t[row] + c.max_dt * (1 + 1e-12) + tol, cat("max_dt-evaluation/", m.implicit ? "irk" : "erk"), cat(d, " evaluated at ", e.t, " after the row at ", X.t[row]));
		}
		rep().count("max_dt-runs");
	}
	if (n > 1) {
		double h1 = X.t[1] - X.t[0];
		if (X.attempt == long(n) - 1 || !c.is_adaptive())
			RTM_CHECK(std::fabs(h1 - want) <= 1e-12 * want + tol, cat("first-step/", m.implicit ? "irk" : "erk"), cat(d, " h1=", h1, " expected ", want));
		else RTM_CHECK(h1 <= want * (1 + 1e-12) + tol, cat("first-step/", m.implicit ? "irk" : "erk"), cat(d, " h1=", h1, " expected at most ", want));
		rep().count("first-steps");
	}
	if (!c.is_adaptive()) {
		// Equidistant grid; only the last step may be shorter.
		for (std::size_t k = 1; k < n; ++k) {
			double h = X.t[k] - X.t[k - 1], tk = p.t0 + k * want;
			bool last = X.t[k] >= p.t1 - tol;
			if (!last) RTM_CHECK(std::fabs(h - want) <= 1e-12 * want + tol, cat("not-constant/", m.name), cat(d, " k=", k, " h=", h, " expected ", want));
			else RTM_CHECK(h <= want * (1 + 1e-12) + tol, cat("last-step/", m.name), cat(d, " k=", k, " h=", h, " at most ", want));
			if (!last) RTM_CHECK(std::fabs(X.t[k] - tk) <= k * tol, cat("grid/", m.name), cat(d, " k=", k, " t=", X.t[k], " expected ", tk));
		}
		if (X.status == SUCCESS) {
			double q = span / want;
			RTM_CHECK(double(n - 1) >= q - 1e-6 * q - 1e-6 && double(n - 1) <= q + 1 + 1e-6 * q + 1e-6, cat("number-of-steps/", m.name), cat(d, " steps=", n - 1, " span/dt=", q));
		}
		rep().count("constant-runs");
		if (!m.adaptive) {
			// Asking a method without embedded pair for adaptivity changes nothing.
			Config c2 = c; c2.adaptive = !c.adaptive;
			Trace tr2;
			Traj Z = run(p, c2, tr2);
			RTM_CHECK(Z.status == X.status && same_bits(Z.t, X.t) && same_bits(Z.y, X.y), cat("adaptive-without-pair/", m.name), d);
			rep().count("no-pair-twins");
		}
	}
	if (n > 2) { rep().nontrivial(d); rep().sample(cat(d, " -> ", n - 1, " steps, first ", X.t[1] - X.t[0])); }
}
