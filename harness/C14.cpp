// C14: no memory error, no undefined behaviour, no use of uninitialised
// values, whatever the (valid) input. The oracle is the sanitizer, or
// valgrind with --extra valgrind; this file only provides the workload.
#include "jobs.hpp"
using namespace rtm;

static bool vg() { return opt().extra == "valgrind"; }
long n_cases(bool th) { return vg() ? (th ? 16000 : 1600) : (th ? 300000 : 14000); }

// Branches on every byte, so that memcheck sees uninitialised ones.
static void consume(const std::string &s)
{
	unsigned h = 0;
	for (unsigned char c : s) { h = h * 31 + c; if (c == 7) ++h; }
	if (h == 12345) rep().count("unlikely");
	rep().count("bytes-checked", s.size());
}

static Problem extreme(Rng &r)
{
	Problem p;
	p.dim = r.pick(std::vector<int>{1, 1, 2, 3, 7, 25});
	p.name = "extreme";
	double scale = r.pick(std::vector<double>{1e-300, 1e-30, 1, 1e30, 1e150, 1e300});
	double k = r.pick(std::vector<double>{0, 1e-12, 1, -1, 1e6, -1e6, 1e12});
	int kind = r.i(0, 3);
	p.t0 = r.pick(std::vector<double>{0, -1e9, 1e-300, 1e6}); p.t1 = p.t0 + r.pick(std::vector<double>{1e-6, 1, 100});
	if (p.t1 == p.t0) p.t1 = p.t0 + 1;
	p.y0 = r.v(p.dim) * scale;
	p.f = [=](double t, const vec &y) -> vec {
		if (kind == 0) return k * y;
		if (kind == 1) return arma::exp(y) * k;
		if (kind == 2) return arma::sqrt(y) + t;
		return k * y % y % y + 1;
	};
	p.J = [=](double, const vec &y) -> mat {
		if (kind == 0) return k * arma::eye(y.n_elem, y.n_elem);
		if (kind == 1) return arma::diagmat(arma::exp(y) * k);
		if (kind == 2) return arma::diagmat(0.5 / arma::sqrt(y));
		return arma::diagmat(3 * k * y % y);
	};
	p.lip = std::fabs(k) + 1;
	return p;
}
static void consume(const Traj &X)
{
	std::string o; put(o, X);
	if (!X.stages.empty()) put(o, X.stages[0]);
	put(o, X.n_div); put(o, X.n_big); put(o, X.n_maxit); put(o, X.elapsed);
	consume(o);
}

void run_case(long id, Rng &r)
{
	int kind = int(id % 6);
	const Method &m = r.pick(all_methods());
	long cap = vg() ? 1500 : 20000;
	if (kind == 0 || kind == 1) {
		Job j = make(r);
		if (vg()) { j.c.max_steps = 15; j.c.dt = std::max(j.c.dt, (j.p.t1 - j.p.t0) / 30); j.dt = (j.p.t1 - j.p.t0) / 8; if (j.kind == 6) j.kind = 5; }
		consume(work(j));
		rep().count("jobs"); rep().nontrivial(j.desc());
	} else if (kind == 2 || kind == 3) {
		Problem p = kind == 2 ? extreme(r) : p_any(r, m.implicit);
		Config c = random_config(r, p, m);
		c.max_steps = vg() ? 10 : 200; c.nmaxit = r.i(1, 60);
		c.store = r.b(0.8); c.file = r.b(0.4); c.output_interval = r.i(1, 5); c.out_interval = r.i(0, 3); c.time_internals = r.b();
		Trace tr; tr.budget = p.dim > 10 ? cap / 20 : cap;
		if (r.b(0.5)) {
			long a = r.i(0, 60), b = r.b(0.3) ? 1000000 : a + r.i(0, 3); int what = r.i(1, 4); bool jac = r.b(0.4);
			tr.fault = [=](char k, long i) { return (jac ? k == 'j' : k == 'f') && i >= a && i <= b ? what : 0; };
		}
		try { Traj X = run(p, c, tr); consume(X); } catch (const BudgetExceeded &) { rep().count("over-budget"); } catch (const InjectedThrow &) { rep().count("exceptions"); }
		rep().count("hostile-runs"); rep().nontrivial(pdesc(p) + c.desc());
	} else if (kind == 4) {
		// Containers and post-processing.
		int period = r.i(1, 9);
		cyclic_buffer<vec> b(period), b2, b3(b);
		int n = 0; double acc = 0;
		for (int k = 0; k < 60; ++k) switch (r.i(0, 6)) {
		case 0: case 1: case 2: b.push_back(r.v(r.i(1, 4))); ++n; break;
		case 3: if (n) acc += b[r.i(0, std::min(n, period) - 1)](0); break;
		case 4: for (auto it = b.begin(); it != b.end(); ++it) acc += (*it)(0); break;
		case 5: b2 = b; if (n) acc += b2[0](0); b3 = cyclic_buffer<vec>(b2); b = b; break;
		default: if (r.b(0.2)) { period = r.i(1, 9); b.resize(period); n = 0; } else { std::ostringstream o; b.print_internal_state(o); consume(o.str()); }
		}
		std::string o; put(o, acc); consume(o);
		const Method &im = r.pick(irk_methods());
		Problem p = p_any_exact(r);
		Trace tr;
		Fun F(p, tr);
		irk::solver_options so = irk::default_solver_options(); newton::options no; so.newton_opts = &no; so.max_steps = 8;
		output_options oo;
		double tm = 0.5 * (p.t0 + p.t1), h = (p.t1 - p.t0) / 10;
		irk::rk_output s1 = irk::odeint(F, p.t0, tm, p.y0, so, oo, im.id, h);
		irk::rk_output s2 = irk::odeint(F, s1.t_vals.back(), p.t1, s1.y_vals.back(), so, oo, im.id, h);
		irk::rk_output s = irk::merge_rk_output(s1, s2);
		std::string q;
		for (double t : s.t_vals) put(q, t);
		for (auto &y : s.y_vals) put(q, y);
		for (auto &y : s.stages) put(q, y);
		put(q, s.elapsed_time); put(q, s.accept_frac); put(q, (long)s.status); put(q, (long)s.count.attempt); put(q, (long)s.count.fun_evals);
		auto sc = irk::get_coefficients(im.id);
		put(q, vec(arma::vectorise(sc.A))); put(q, sc.b); put(q, sc.c); put(q, sc.b2); put(q, sc.gamma); put(q, (long)sc.order); put(q, (long)sc.order2); put(q, (long)sc.FSAL);
		if (sc.b_interp.n_elem) put(q, irk::project_b(r.u(), sc));
		auto e = erk::get_coefficients(r.pick(erk_methods()).id);
		put(q, vec(arma::vectorise(e.A))); put(q, e.b); put(q, e.c); put(q, e.b2); put(q, (long)e.order); put(q, (long)e.order2); put(q, (long)e.FSAL); put(q, e.gamma);
		if (r.b(0.3)) { auto u = irk::get_coefficients(r.i(-5, 500)); put(q, (long)u.order); put(q, (long)u.order2); put(q, (long)u.b.n_elem); auto w = erk::get_coefficients(r.i(-5, 500)); put(q, (long)w.order); put(q, (long)w.order2); put(q, (long)w.b.n_elem); }
		q += irk::method_to_name(r.i(0, 300)); q += erk::method_to_name(r.i(0, 300));
		irk::coeff_list c1, c2;
		for (int k = r.i(0, 3); k >= 0; --k) { c1.push_back(std::vector<int>(r.i(0, 3), k)); c2.push_back(std::vector<int>(r.i(0, 2), k)); }
		std::ostringstream os; irk::operator<<(os, irk::expand(c1, c2)); q += os.str();
		auto C = irk::collocation_interpolate_coeffs(vec(arma::linspace(0.1, 1, r.i(1, 7)))); put(q, vec(arma::vectorise(C)));
		auto dso = irk::default_solver_options(); put(q, dso.rel_tol + dso.abs_tol + dso.max_dt + dso.max_steps + dso.out_interval + dso.adaptive_step_size + dso.time_internals + dso.internal_solver + dso.verbose_newton + dso.extrapolate_stage + dso.use_newton_iters_adaptive_step);
		auto deo = erk::default_solver_options(); put(q, deo.rel_tol + deo.abs_tol + deo.max_dt + deo.max_steps + deo.out_interval + deo.adaptive_step_size + deo.time_internals + deo.internal_solver + deo.extrapolate_stage);
		put(q, (long)(irk::verify_solver_options(dso) + erk::verify_solver_options(deo) + irk::is_method_explicit(sc) + irk::is_method_dirk(sc) + irk::is_method_sdirk(sc)));
		consume(q);
		rep().count("post-processing"); rep().nontrivial(cat(period, n, pdesc(p), im.name));
	} else {
		// Non-linear solvers from hostile starting points, all option combinations.
		Sys s; int n = r.i(1, 6);
		s.M = r.m(n, n) * r.logu(0.1, 1e3); s.q = r.v(n) * r.logu(1e-3, 1e6);
		if (r.b(0.1)) s.M.fill(1e200);
		newton::options no;
		no.tol = r.logu(1e-14, 1); no.dx_delta = r.logu(1e-14, 1); no.maxit = r.i(1, 60); no.max_step = r.b() ? r.logu(1e-4, 10) : -1;
		no.refresh_jac = r.i(0, 12); no.precondition = r.b(); no.limit_step = r.b(); no.time_internals = r.b();
		newton::status st;
		bool quiet = r.b(0.7);
		std::string q;
		vec x0 = r.v(n) * r.pick(std::vector<double>{0, 1, 1e8, 1e300});
		put(q, newton::newton_iterate(s, x0, no, st, quiet)); put(q, (long)st.conv_status); put(q, (long)st.iters); put(q, st.res); put(q, st.eta_final);
		put(q, newton::broyden_iterate(s, x0, no, st, quiet)); put(q, (long)st.conv_status); put(q, (long)st.iters); put(q, st.res);
		q += newton::status_message(r.i(-3, 9));
		vec x = r.v(n);
		put(q, vec(arma::vectorise(newton::approx_jacobi_matrix(x, s, 1e-5)))); put(q, (long)newton::verify_jacobi_matrix(x, s));
		consume(q);
		rep().count("non-linear-solves"); rep().nontrivial(cat(n, s.q));
	}
}
