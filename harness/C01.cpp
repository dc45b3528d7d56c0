// C01: a successful integration returns a well-formed trajectory over [t0,t1].
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 24000; }

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (r.b(0.15)) c.max_steps = r.i(0, 40);
	if (r.b(0.1)) c.m = m, p.t1 = p.t0 + (p.t1 - p.t0) * r.logu(1e-9, 1);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 3000);
	if (p.t0 == 0 && r.b(0.1)) { // a tiny interval
		double k = r.logu(1e-16, 1);
		p.t1 *= k; c.dt *= k; c.max_dt *= k;
	}
	if (!m.implicit && r.b(0.06)) c.adaptive = false, c.max_dt = -1, c.dt = (p.t1 - p.t0) / r.i(100, 1500); // rounding adds up
	Trace tr;
	vec y0 = p.y0;
	Traj T = run(p, c, tr, p.t0, p.t1, y0);
	std::string d = pdesc(p) + " | " + c.desc();
	std::size_t n = T.t.size();
	std::size_t s = tableau(m).b.size();
	rep().count("trajectories");
	rep().count("rows", n);
	RTM_CHECK(same_bits(y0, p.y0), "y0-modified", d);
	RTM_CHECK(n >= 1, "empty", d);
	RTM_CHECK(T.y.size() == n && T.stages.size() == n && T.err_est.size() == n && T.err.size() == n, "parallel-arrays",
	          cat(d, " t=", n, " y=", T.y.size(), " stages=", T.stages.size(), " err_est=", T.err_est.size(), " err=", T.err.size()));
	if (n < 1 || T.y.size() != n || T.stages.size() != n || T.err_est.size() != n || T.err.size() != n) return;
	RTM_CHECK(same_bits(T.t[0], p.t0), "first-time", cat(d, " t[0]=", T.t[0]));
	RTM_CHECK(same_bits(T.y[0], p.y0), "first-value", cat(d, " y[0]=", T.y[0]));
	double tol = ulp_tol(p.t0, p.t1);
	for (std::size_t k = 0; k < n; ++k) {
		if (k) RTM_CHECK(T.t[k] > T.t[k - 1], "time-not-increasing", cat(d, " k=", k, " ", T.t[k - 1], " -> ", T.t[k]));
		RTM_CHECK(T.t[k] <= p.t1 + tol, "beyond-t1", cat(d, " k=", k, " t=", T.t[k]));
		RTM_CHECK(T.y[k].n_elem == (arma::uword)p.dim, "row-dimension", cat(d, " k=", k));
		RTM_CHECK(T.stages[k].n_elem == p.dim * s, "stages-dimension", cat(d, " k=", k, " n=", T.stages[k].n_elem));
		RTM_CHECK(T.err_est[k].n_elem == (arma::uword)p.dim, "err-dimension", cat(d, " k=", k));
		RTM_CHECK(T.y[k].is_finite() && std::isfinite(T.t[k]), "non-finite-row", cat(d, " k=", k));
		RTM_CHECK(k == 0 || T.stages[k].is_finite(), "non-finite-stages", cat(d, " k=", k));
		RTM_CHECK(T.err[k] >= 0, "negative-error", cat(d, " k=", k, " err=", T.err[k]));
	}
	bool reached = std::fabs(T.t[n - 1] - p.t1) <= tol;
	RTM_CHECK((T.status == SUCCESS) == reached, "status-vs-end", cat(d, " status=", T.status, " last t=", T.t[n - 1]));
	// These problems are all solvable, so only the step limit may stop us.
	// (An explicit method with a constant step may blow up.)
	if (c.max_steps < 0 && (c.is_adaptive() || !p.stiff) && !(m.implicit && !c.is_adaptive()))
		if ((c.is_adaptive() || m.implicit) && c.atol <= 3e-3 && c.rtol <= 3e-3)
			RTM_CHECK(T.status == SUCCESS, "did-not-finish", cat(d, " status=", T.status, " last t=", T.t[n - 1]));
	if (c.max_steps < 0) RTM_CHECK(T.status != ERROR_MAX_STEPS_EXCEEDED, "spurious-max-steps", d);
	if (n > 2) rep().nontrivial(d);
	if (n > 2) rep().sample(cat(d, " -> rows=", n, " status=", T.status, " last t=", T.t[n - 1]));
}
