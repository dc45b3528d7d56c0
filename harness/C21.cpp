// C21: merging solutions conserves rows, counters and time.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 30000; }

typedef irk::rk_output Out;
typedef irk::rk_output::counters Cnt;
static const std::vector<std::pair<const char *, std::size_t Cnt::*>> fields = {
	{"attempt", &Cnt::attempt}, {"reject_newton", &Cnt::reject_newton}, {"reject_err", &Cnt::reject_err}, {"newton_success", &Cnt::newton_success},
	{"newton_incr_diverge", &Cnt::newton_incr_diverge}, {"newton_iter_error_too_large", &Cnt::newton_iter_error_too_large},
	{"newton_maxit_exceed", &Cnt::newton_maxit_exceed}, {"fun_evals", &Cnt::fun_evals}, {"jac_evals", &Cnt::jac_evals}};

static bool same(const Out &a, const Out &b, bool &frac)
{
	bool s = a.status == b.status && same_bits(a.t_vals, b.t_vals) && same_bits(a.y_vals, b.y_vals) && same_bits(a.stages, b.stages) && same_bits(a.err_est, b.err_est) && same_bits(a.err, b.err) && std::fabs(a.elapsed_time - b.elapsed_time) <= 1e-12 * (std::fabs(a.elapsed_time) + std::fabs(b.elapsed_time));
	for (auto &f : fields) s = s && a.count.*f.second == b.count.*f.second;
	frac = std::fabs(a.accept_frac - b.accept_frac) < 1e-12;
	return s;
}

static Out synthetic(Rng &r, int dim)
{
	Out o;
	o.status = r.pick(std::vector<int>{0, 0, 0, 1, 4, 8, 16, 128});
	int n = r.b(0.1) ? 0 : r.i(1, 8), ns = r.b(0.8) ? n : r.i(0, n);
	double t = r.u(-3, 3);
	for (int k = 0; k < n; ++k) {
		o.t_vals.push_back(t += r.u(0.01, 1)); o.y_vals.push_back(r.v(dim));
	}
	for (int k = 0; k < ns; ++k) { o.stages.push_back(r.v(dim * r.i(1, 3))); o.err_est.push_back(r.v(dim)); o.err.push_back(r.u()); }
	o.elapsed_time = r.b(0.1) ? 0 : r.logu(1e-3, 1e4);
	for (auto &f : fields) o.count.*f.second = r.b(0.2) ? 0 : r.b(0.1) ? r.next() >> 20 : r.i(0, 500);
	o.count.attempt = r.b(0.1) ? 0 : r.i(1, 500);
	o.accept_frac = o.count.attempt ? r.i(0, o.count.attempt) / double(o.count.attempt) : 0;
	return o;
}

static Out integrate(const Problem &p, double t0, double t1, const vec &y0, Rng &r)
{
	Trace tr; tr.budget = 200000;
	Fun F(p, tr);
	irk::solver_options so = irk::default_solver_options();
	newton::options no; no.maxit = 100;
	so.newton_opts = &no; so.rel_tol = r.logu(1e-6, 1e-3); so.abs_tol = r.logu(1e-6, 1e-3);
	so.max_steps = r.b(0.2) ? r.i(0, 4) : -1;
	output_options oo;
	if (r.b(0.1)) oo.output_mode = output_options::NO_OUTPUT;
	return irk::odeint(F, t0, t1, y0, so, oo, r.pick(irk_methods()).id, (t1 - t0) * r.logu(1e-3, 1));
}

static void check(const Out &a, const Out &b, const std::string &d)
{
	rep().context = d;
	Out a0 = a, b0 = b;
	Out m = irk::merge_rk_output(a, b);
	bool fr;
	RTM_CHECK(same(a, a0, fr) && fr && same(b, b0, fr) && fr, "inputs-changed", d);
	auto cat_d = [](std::vector<double> x, const std::vector<double> &y) { x.insert(x.end(), y.begin(), y.end()); return x; };
	auto cat_v = [](std::vector<vec> x, const std::vector<vec> &y) { x.insert(x.end(), y.begin(), y.end()); return x; };
	RTM_CHECK(same_bits(m.t_vals, cat_d(a.t_vals, b.t_vals)), "t_vals", d);
	RTM_CHECK(same_bits(m.y_vals, cat_v(a.y_vals, b.y_vals)), "y_vals", d);
	RTM_CHECK(same_bits(m.stages, cat_v(a.stages, b.stages)), "stages", d);
	RTM_CHECK(same_bits(m.err_est, cat_v(a.err_est, b.err_est)), "err_est", d);
	RTM_CHECK(same_bits(m.err, cat_d(a.err, b.err)), "err", d);
	for (auto &f : fields) RTM_CHECK(m.count.*f.second == a.count.*f.second + b.count.*f.second, cat("count/", f.first), cat(d, ": ", a.count.*f.second, " + ", b.count.*f.second, " = ", m.count.*f.second));
	double el = a.elapsed_time + b.elapsed_time;
	RTM_CHECK(std::fabs(m.elapsed_time - el) <= 1e-12 * std::fabs(el), "elapsed_time", cat(d, ": ", a.elapsed_time, " + ", b.elapsed_time, " = ", m.elapsed_time));
	double n1 = a.count.attempt, n2 = b.count.attempt, want = n1 + n2 > 0 ? (n1 * a.accept_frac + n2 * b.accept_frac) / (n1 + n2) : 0;
	RTM_CHECK(std::fabs(m.accept_frac - want) <= 1e-12, "accept_frac", cat(d, ": ", a.accept_frac, " of ", n1, " and ", b.accept_frac, " of ", n2, " = ", m.accept_frac));
	// Success of the whole means success of both; one failure is passed on.
	RTM_CHECK((m.status == SUCCESS) == (a.status == SUCCESS && b.status == SUCCESS), "status", cat(d, ": ", a.status, " and ", b.status, " = ", m.status));
	if (a.status == SUCCESS || b.status == SUCCESS || a.status == b.status)
		RTM_CHECK(m.status == (a.status == SUCCESS ? b.status : a.status), "status", cat(d, ": ", a.status, " and ", b.status, " = ", m.status));
	else RTM_CHECK((m.status & a.status) == a.status && (m.status & b.status) == b.status, "status", cat(d, ": ", a.status, " and ", b.status, " = ", m.status));
	rep().count("merges"); rep().count("rows", m.t_vals.size());
	if (a.status != SUCCESS || b.status != SUCCESS) rep().count("failed-parts");
	if (a.t_vals.size() + b.t_vals.size() > 1) { rep().nontrivial(d); rep().sample(d); }
}

void run_case(long id, Rng &r)
{
	if (id % 3) {
		int dim = r.i(0, 4);
		Out a = synthetic(r, dim), b = synthetic(r, dim), c = synthetic(r, dim);
		check(a, b, cat("synthetic ", id, " rows ", a.t_vals.size(), " + ", b.t_vals.size()));
		// Chains: grouping does not matter.
		bool fr;
		bool s = same(irk::merge_rk_output(irk::merge_rk_output(a, b), c), irk::merge_rk_output(a, irk::merge_rk_output(b, c)), fr);
		RTM_CHECK(s && fr, "not-associative", cat("synthetic ", id));
		Out x = a;
		x = irk::merge_rk_output(x, x); // merging with itself
		RTM_CHECK(x.t_vals.size() == 2 * a.t_vals.size() && x.count.fun_evals == 2 * a.count.fun_evals, "self-merge", cat("synthetic ", id));
		rep().count("chains");
		return;
	}
	Problem p = p_any(r, true);
	double tm = p.t0 + (p.t1 - p.t0) * r.u(0.1, 0.9);
	rep().context = pdesc(p);
	Out a = integrate(p, p.t0, tm, p.y0, r);
	Out b = integrate(p, tm, p.t1, a.y_vals.empty() ? p.y0 : a.y_vals.back(), r);
	check(a, b, cat(pdesc(p), " split at ", tm, " rows ", a.t_vals.size(), " + ", b.t_vals.size()));
	rep().count("integrations", 2);
}
