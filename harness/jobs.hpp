// Self-contained pieces of work over the whole library, and everything they
// returned as a string of bytes.
#ifndef JOBS_HPP
#define JOBS_HPP
#include "multistep.hpp"
#include "common.hpp"
namespace rtm {

// One independent piece of work, and what it came to.
struct Job {
	int kind = 0; // 0 RK, 1 AB, 2 BDF, 3 Newton, 4 Broyden, 5 registry, 6 default RK overload, 7 merge/dense output
	Problem p; Config c; int order = 1; double dt = 0; int pick = 0;
	std::string desc() const { return kind == 0 ? pdesc(p) + " | " + c.desc() : cat("kind=", kind, " ", pdesc(p), " order=", order, " dt=", dt, " pick=", pick); }
};
inline Job make(Rng &r)
{
	Job j;
	j.kind = r.b(0.55) ? 0 : r.i(1, 7);
	const Method &m = r.pick(all_methods());
	j.p = p_any(r, m.implicit);
	if (j.kind == 1 || j.kind == 2) j.p = p_any_exact(r);
	j.c = random_config(r, j.p, m);
	j.c.time_internals = false;
	if (!j.c.is_adaptive()) j.c.dt = std::max(j.c.dt, (j.p.t1 - j.p.t0) / 150);
	j.c.rtol = std::max(j.c.rtol, 1e-6); j.c.atol = std::max(j.c.atol, 1e-6);
	j.c.file = r.b(0.2);
	j.c.max_steps = 400;
	j.order = r.i(1, j.kind == 1 ? 5 : 6);
	j.dt = (j.p.t1 - j.p.t0) / r.u(j.order + 2, 40);
	j.pick = r.i(0, 1000);
	return j;
}
struct Sys { // F(x) = x - 0.5 sin(M x) - q
	typedef mat jac_type;
	mat M; vec q;
	vec fun(const vec &x) { return x - 0.5 * arma::sin(M * x) - q; }
	mat jac(const vec &x) { return mat(arma::eye(x.n_elem, x.n_elem) - 0.5 * arma::diagmat(arma::cos(M * x)) * M); }
};
inline void put(std::string &o, const void *p, std::size_t n) { o.append(static_cast<const char *>(p), n); }
inline void put(std::string &o, double x) { put(o, &x, sizeof x); }
inline void put(std::string &o, long x) { put(o, &x, sizeof x); }
inline void put(std::string &o, const vec &x) { put(o, (long)x.n_elem); put(o, x.memptr(), x.n_elem * sizeof(double)); }
inline void put(std::string &o, const Traj &X)
{
	put(o, (long)X.status); put(o, X.attempt); put(o, X.reject_err); put(o, X.reject_newton); put(o, X.newton_success); put(o, X.fun_evals); put(o, X.jac_evals);
	put(o, X.accept_frac); put(o, (long)X.t.size());
	for (std::size_t k = 0; k < X.t.size(); ++k) { put(o, X.t[k]); put(o, X.y[k]); put(o, X.err[k]); put(o, X.err_est[k]); if (k) put(o, X.stages[k]); }
	o += X.file;
}
// Everything observable about the job, bit for bit (but for the time it took).
inline std::string work(const Job &j)
{
	std::string o;
	Trace tr; tr.budget = 300000;
	try {
		Fun F(j.p, tr);
		multistep::solver_options so; so.order = j.order;
		newton::options no; no.tol = no.dx_delta = 1e-9; no.maxit = 50; no.refresh_jac = j.pick % 2; no.precondition = j.pick % 3 == 0; no.limit_step = j.pick % 5 == 0;
		newton::status st;
		Rng r(j.pick + 1);
		int n = j.p.dim;
		Sys s; s.M = r.m(n, n); s.q = r.v(n);
		vec x0 = r.v(n);
		switch (j.kind) {
		case 0: put(o, run(j.p, j.c, tr)); break;
		case 1: { auto s1 = multistep::adams_bashforth(F, j.p.t0, j.p.t1, j.p.y0, so, j.dt); put(o, (long)s1.status); for (double t : s1.t_vals) put(o, t); for (auto &y : s1.y_vals) put(o, y); break; }
		case 2: { auto s1 = multistep::bdf(F, j.p.t0, j.p.t1, j.p.y0, so, j.dt); put(o, (long)s1.status); for (double t : s1.t_vals) put(o, t); for (auto &y : s1.y_vals) put(o, y); break; }
		case 3: { vec x = newton::newton_iterate(s, x0, no, st); put(o, x); put(o, (long)st.conv_status); put(o, (long)st.iters); put(o, st.res); break; }
		case 4: { vec x = newton::broyden_iterate(s, x0, no, st); put(o, x); put(o, (long)st.conv_status); put(o, (long)st.iters); put(o, st.res); break; }
		case 5: {
			for (auto &m : erk_methods()) { put(o, (long)erk::name_to_method(m.name)); o += erk::method_to_name(m.id); put(o, erk::get_coefficients(m.id).b); }
			for (auto &m : irk_methods()) { put(o, (long)irk::name_to_method(m.name)); o += irk::method_to_name(m.id); put(o, irk::get_coefficients(m.id).b); }
			for (auto &s1 : irk::all_method_names()) o += s1;
			for (auto &s1 : erk::all_method_names()) o += s1;
			put(o, (long)irk::name_to_method("no such method")); put(o, (long)erk::name_to_method("no such method"));
			break;
		}
		case 6:
			if (j.p.lip * (j.p.t1 - j.p.t0) > 500 || j.pick % 2) { auto s1 = irk::odeint(F, j.p.t0, j.p.t1, j.p.y0); put(o, (long)s1.status); for (double t : s1.t_vals) put(o, t); for (auto &y : s1.y_vals) put(o, y); }
			else { auto s1 = erk::odeint(F, j.p.t0, j.p.t1, j.p.y0); put(o, (long)s1.status); for (double t : s1.t_vals) put(o, t); for (auto &y : s1.y_vals) put(o, y); }
			break;
		default: {
			auto sc = irk::get_coefficients(irk::RADAU_IIA_53);
			for (int k = 0; k < 5; ++k) put(o, irk::project_b(0.1 * j.order + 0.2 * k, sc));
			put(o, vec(arma::vectorise(irk::collocation_interpolate_coeffs(arma::sort(r.v(1 + j.pick % 4, 0.01, 1))))));
		}
		}
	} catch (const BudgetExceeded &) { o += "budget"; }
	return o;
}

} // namespace rtm
#endif
