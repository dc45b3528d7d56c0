// C11: the user's functor is only ever asked about times inside the interval,
// with a vector of the right size, and is used in place.
#include "multistep.hpp"
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 20000; }

// A functor whose identity matters: copies are counted.
struct Pinned {
	typedef arma::mat jac_type;
	const Problem &p; Trace &tr; long n = 0;
	Pinned(const Problem &pp, Trace &t) : p(pp), tr(t) {}
	static long copies;
	Pinned(const Pinned &o) : p(o.p), tr(o.tr), n(o.n) { ++copies; }
	Pinned &operator=(const Pinned &) = delete;
	vec fun(double t, const vec &y) { ++n; return Fun(p, tr).fun(t, y); }
	mat jac(double t, const vec &y) { ++n; return Fun(p, tr).jac(t, y); }
};

long Pinned::copies = 0;

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	long nm = ms.size() + 2;
	long w = id % nm;
	Trace tr;
	if (w >= (long)ms.size()) {
		bool ab = w == (long)ms.size();
		Problem p = p_any_exact(r);
		multistep::solver_options so; so.order = r.i(1, ab ? 5 : 6);
		double span = p.t1 - p.t0, dt = r.b(0.1) ? span * r.u(1, 3) : span / r.logu(so.order + 2, 200);
		std::string d = cat(pdesc(p), " | ", ab ? "AB" : "BDF", " order=", so.order, " dt=", dt);
		rep().context = d;
		Fun F(p, tr);
		vec y0 = p.y0;
		std::vector<double> t;
		if (ab) t = multistep::adams_bashforth(F, p.t0, p.t1, y0, so, dt).t_vals;
		else t = multistep::bdf(F, p.t0, p.t1, y0, so, dt).t_vals;
		RTM_CHECK(same_bits(y0, p.y0), "y0-modified", d);
		double last = t.empty() ? p.t1 : std::max(p.t1, t.back()), tol = 100 * ulp_tol(p.t0, last);
		if (tr.nfun) {
			RTM_CHECK(tr.tmin >= p.t0 - tol, cat("before-t0/", ab ? "ab" : "bdf"), cat(d, " evaluated at ", tr.tmin));
			// A fixed grid may step over t1, but not by a whole step (beyond its starting values).
			RTM_CHECK(tr.tmax <= std::max(p.t1 + std::min(dt, span), p.t0 + so.order * std::min(dt, span)) + tol, cat("after-t1/", ab ? "ab" : "bdf"), cat(d, " evaluated at ", tr.tmax));
			RTM_CHECK(tr.tmax <= last + tol, cat("after-the-end/", ab ? "ab" : "bdf"), cat(d, " evaluated at ", tr.tmax, " last row ", last));
		}
		RTM_CHECK(tr.bad_dim == 0 && tr.nonfinite_arg == 0, "bad-argument", d);
		rep().count("multistep-runs"); rep().count("evaluations", tr.nfun + tr.njac);
		rep().nontrivial(d);
		return;
	}
	const Method &m = ms[w];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 2000);
	if (r.b(0.3)) c.dt = (p.t1 - p.t0) * r.u(0.5, 20);
	tr.budget = 1000000;
	std::string d = pdesc(p) + " | " + c.desc();
	std::size_t rows = 0;
	if (r.b(0.15)) {
		// The integrators take the functor by reference.
		rep().context = d;
		Pinned F(p, tr);
		Pinned::copies = 0;
		output_options oo;
		vec y0 = p.y0;
		if (m.implicit) {
			irk::solver_options so = irk::default_solver_options(); newton::options no; no.refresh_jac = c.nrefresh; no.tol = c.ntol; no.dx_delta = c.ndx; so.newton_opts = &no;
			so.adaptive_step_size = c.adaptive; so.max_dt = c.max_dt; so.rel_tol = c.rtol; so.abs_tol = c.atol;
			rows = irk::odeint(F, p.t0, p.t1, y0, so, oo, m.id, c.dt).t_vals.size();
		} else {
			erk::solver_options so = erk::default_solver_options();
			so.adaptive_step_size = c.adaptive; so.max_dt = c.max_dt; so.rel_tol = c.rtol; so.abs_tol = c.atol;
			rows = erk::odeint(F, p.t0, p.t1, y0, so, oo, m.id, c.dt).t_vals.size();
		}
		RTM_CHECK(F.n == tr.nfun + tr.njac && !Pinned::copies, "copied-functor", cat(d, " copied ", Pinned::copies, " times"));
		RTM_CHECK(same_bits(y0, p.y0), "y0-modified", d);
		rep().count("pinned-runs");
	} else {
		try { rows = run(p, c, tr).t.size(); } catch (const BudgetExceeded &) { rep().count("over-budget"); }
	}
	double tol = ulp_tol(p.t0, p.t1);
	if (tr.nfun) {
		RTM_CHECK(tr.tmin >= p.t0 - tol, cat("before-t0/", m.name), cat(d, " evaluated at ", tr.tmin));
		RTM_CHECK(tr.tmax <= p.t1 + tol, cat("after-t1/", m.name), cat(d, " evaluated at ", tr.tmax));
	}
	RTM_CHECK(tr.bad_dim == 0 && tr.nonfinite_arg == 0, "bad-argument", d);
	rep().count("runs"); rep().count("evaluations", tr.nfun + tr.njac);
	if (rows > 2) { rep().nontrivial(d); rep().sample(cat(d, " -> ", tr.nfun + tr.njac, " evaluations in [", tr.tmin, ", ", tr.tmax, "]")); }
}
