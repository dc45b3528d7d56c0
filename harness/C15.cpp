// C15: every build configuration gives the same results. This program runs
// jobs and records what came out; run_check.py builds it in every
// configuration and compares the records.
//
// Jobs must be the same in every build, so every random draw here is a
// statement of its own, and problems are well conditioned.
#include "multistep.hpp"
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 16000; }

struct Rec {
	std::string desc, text;
	std::vector<double> vals, work;
	double tol = 1e-7;
	void add(const vec &y) { vals.insert(vals.end(), y.begin(), y.end()); }
	template <typename... R> void say(const R &... r) { text += cat(r..., ";"); }
};
static FILE *rec_file()
{
	static FILE *f = std::fopen((opt().out + ".rec").c_str(), "a");
	return f;
}
static void write(long id, const Rec &R)
{
	FILE *f = rec_file();
	std::fprintf(f, "{\"id\":%ld,\"desc\":\"%s\",\"text\":\"%s\",\"tol\":%g,\"vals\":[", id, esc(R.desc).c_str(), esc(R.text).c_str(), R.tol);
	for (std::size_t k = 0; k < R.vals.size(); ++k) std::fprintf(f, "%s\"%.17g\"", k ? "," : "", R.vals[k]);
	std::fprintf(f, "],\"work\":[");
	for (std::size_t k = 0; k < R.work.size(); ++k) std::fprintf(f, "%s%.17g", k ? "," : "", R.work[k]);
	std::fprintf(f, "]}\n");
	std::fflush(f);
}

static vec draw(Rng &r, int n, double a, double b) { vec x(n); for (int k = 0; k < n; ++k) x(k) = r.u(a, b); return x; }
static mat drawm(Rng &r, int n) { mat x(n, n); for (int k = 0; k < n * n; ++k) x(k) = r.u(-1, 1); return x; }

static Problem problem(Rng &r)
{
	Problem p;
	int kind = r.i(0, 5);
	p.dim = r.i(1, 4);
	int n = p.dim;
	p.t0 = r.i(-4, 4) * 0.5;
	double len = r.u(0.5, 2.5);
	p.t1 = p.t0 + len;
	p.y0 = draw(r, n, 0.2, 1.5);
	switch (kind) {
	case 0: {
		mat A = drawm(r, n);
		for (int k = 0; k < n; ++k) A(k, k) -= n;
		p.name = "linear"; p.lip = 2 * n;
		p.f = [A](double, const vec &y) { return vec(A * y); };
		p.J = [A](double, const vec &) { return A; };
		break;
	}
	case 1: {
		vec q = draw(r, n, 0.2, 2);
		p.name = "logistic"; p.lip = 6;
		p.f = [q](double, const vec &y) { return vec(q % y % (1.0 - y)); };
		p.J = [q](double, const vec &y) { return mat(arma::diagmat(q % (1.0 - 2.0 * y))); };
		break;
	}
	case 2: {
		double l = r.u(0, 7);
		l = std::exp(l);
		p.name = "relaxation"; p.lip = l;
		p.f = [l](double t, const vec &y) { vec d = y; for (arma::uword k = 0; k < d.n_elem; ++k) d(k) = -l * (y(k) - std::sin(t + k)) + std::cos(t + k); return d; };
		p.J = [l](double, const vec &y) { return mat(-l * arma::eye(y.n_elem, y.n_elem)); };
		break;
	}
	case 3: {
		double g = r.u(0.5, 4);
		p.name = "pendulum"; p.dim = 2; p.lip = 5; p.y0 = vec{p.y0(0), 0.3};
		p.f = [g](double t, const vec &y) { return vec{y(1), -g * std::sin(y(0)) - 0.2 * y(1) + std::cos(t)}; };
		p.J = [g](double, const vec &y) { return mat{{0, 1}, {-g * std::cos(y(0)), -0.2}}; };
		break;
	}
	case 4: {
		double mu = r.u(0.1, 2);
		p.name = "van-der-pol"; p.dim = 2; p.lip = 5 + 4 * mu; p.y0 = vec{1.0, -0.5};
		p.f = [mu](double, const vec &y) { return vec{y(1), mu * (1 - y(0) * y(0)) * y(1) - y(0)}; };
		p.J = [mu](double, const vec &y) { return mat{{0, 1}, {-2 * mu * y(0) * y(1) - 1, mu * (1 - y(0) * y(0))}}; };
		break;
	}
	default: {
		double k1 = r.u(0.1, 3);
		double k2 = r.u(0.1, 3);
		p.name = "kinetics"; p.dim = 3; p.lip = 8; p.y0 = vec{1, 0.2, 0.1};
		p.f = [=](double, const vec &y) { double v = k1 * y(0) * y(1), w = k2 * y(2); (void)w; return vec{w - v, v - w, -0.1 * y(2)}; };
		p.J = [=](double, const vec &y) { return mat{{-k1 * y(1), -k1 * y(0), k2}, {k1 * y(1), k1 * y(0), -k2}, {0, 0, -0.1}}; };
		break;
	}
	}
	return p;
}

// A functor of its own for the solvers of nonlinear equations.
struct Sys {
	typedef mat jac_type;
	mat M; vec q; int fault = 0; long n = 0;
	vec fun(const vec &x) { ++n; vec r = x - 0.3 * arma::sin(M * x) - q; if (fault == 1 && n > 2) r(0) = std::nan(""); if (fault == 3 && n > 2) throw InjectedThrow{1}; return r; }
	mat jac(const vec &x) { mat J = arma::eye(x.n_elem, x.n_elem) - 0.3 * arma::diagmat(arma::cos(M * x)) * M; if (fault == 2) J.row(0).zeros(); return J; }
};

static void rk(Rng &r, Rec &R)
{
	Problem p = problem(r);
	Config c;
	c.m = all_methods()[r.i(0, all_methods().size() - 1)];
	c.adaptive = r.b(0.6);
	double span = p.t1 - p.t0;
	int n = r.i(3, 40);
	if (!c.m.implicit) n = std::max(n, std::min(4000, int(p.lip * span)));
	c.dt = span / (n + 0.37);
	c.rtol = std::pow(10.0, -r.i(2, c.m.order2 > 2 ? 6 : 4));
	c.atol = c.rtol;
	if (r.b(0.3)) c.max_dt = c.dt * 1.5;
	if (r.b(0.25)) c.max_steps = r.i(0, 6);
	c.out_interval = r.b(0.2) ? r.i(1, 9) : 0;
	c.time_internals = r.b(0.2);
	c.ntol = 1e-10;
	c.ndx = 1e-10;
	c.nmaxit = r.b(0.1) ? 1 : 100;
	c.nrefresh = r.i(0, 3);
	c.store = !r.b(0.1);
	c.file = r.b(0.2);
	c.output_interval = r.i(1, 3);
	int fault = r.b(0.2) ? r.i(1, 4) : 0;
	double ts = p.t0 + span * r.u(0.1, 0.9);
	if (fault) {
		auto f = p.f;
		p.f = [=](double t, const vec &y) {
			vec d = f(t, y);
			if (t > ts) { if (fault == 1) d(0) = std::nan(""); if (fault == 2) d.fill(HUGE_VAL); if (fault == 3) throw InjectedThrow{3}; if (fault == 4) d += 50 * y % y; }
			return d;
		};
		if (c.is_adaptive() && fault < 3) c.max_steps = r.i(2, 12); // shrinking steps towards the fault differ by rounding
		if (fault == 4) c.max_steps = 8;
	}
	R.desc = cat("rk fault=", fault, " ", pdesc(p), " | ", c.desc());
	rep().context = R.desc;
	Trace tr; tr.budget = 300000;
	try {
		Traj T = run(p, c, tr);
		R.say("status", T.status, " stages", T.stages.empty() ? -1 : (int)T.stages.back().n_elem);
		if (!c.is_adaptive() && fault != 4) R.say("rows", T.t.size());
		else R.work.push_back(T.t.size());
		R.work.push_back(T.fun_evals); R.work.push_back(T.jac_evals); R.work.push_back(T.attempt);
		R.work.push_back(std::count(T.file.begin(), T.file.end(), '\n'));
		// Adaptive steps may part where a decision is a tie; then only accuracy is left.
		bool ok = T.status == SUCCESS && fault != 4;
		R.tol = c.is_adaptive() ? 1e3 * c.rtol : 1e-7;
		if (!T.y.empty() && (ok || !c.is_adaptive()) && fault != 4) { R.add(T.y.back()); R.vals.push_back(T.t.back()); }
		if (!T.err.empty() && !c.is_adaptive()) { R.vals.push_back(T.err.back() * c.rtol); R.add(T.err_est.back()); R.add(T.stages.back() * 1e-3); }
		if (T.status == SUCCESS) R.vals.push_back(T.accept_frac * R.tol);
		rep().count("rows", T.t.size());
	} catch (const InjectedThrow &e) { R.say("exception ", e.tag); }
	if (tr.nfun > 10) rep().nontrivial(R.desc);
}

static void multi(Rng &r, Rec &R)
{
	Problem p = problem(r);
	bool b = r.b();
	multistep::solver_options so;
	so.order = r.i(-1, 8);
	int n = b ? r.i(4, 40) : std::max(r.i(4, 40), std::min(3000, int(12 * p.lip * (p.t1 - p.t0))));
	double dt = (p.t1 - p.t0) / (n + 0.37);
	R.desc = cat(b ? "bdf" : "ab", " order ", so.order, " dt=", dt, " ", pdesc(p));
	rep().context = R.desc;
	Trace tr; tr.budget = 300000;
	Fun F(p, tr);
	int status; std::vector<double> t; std::vector<vec> y;
	if (b) { auto s = multistep::bdf(F, p.t0, p.t1, p.y0, so, dt); status = s.status; t = s.t_vals; y = s.y_vals; }
	else { auto s = multistep::adams_bashforth(F, p.t0, p.t1, p.y0, so, dt); status = s.status; t = s.t_vals; y = s.y_vals; }
	R.say("status", status, " rows", t.size());
	if (!y.empty()) { R.add(y.back()); R.vals.push_back(t.back()); R.add(y[y.size() / 2]); }
	R.work.push_back(tr.nfun); R.work.push_back(tr.njac);
	R.tol = 1e-6;
	rep().count("rows", t.size());
	if (t.size() > 2) rep().nontrivial(R.desc);
}

static void roots(Rng &r, Rec &R)
{
	int n = r.i(1, 5);
	Sys s;
	s.M = drawm(r, n) / n;
	s.q = draw(r, n, -1, 1);
	s.fault = r.b(0.3) ? r.i(1, 3) : 0;
	vec x0 = draw(r, n, -1, 1);
	newton::options o;
	o.tol = 1e-9; o.dx_delta = 1e-9;
	o.maxit = r.b(0.15) ? r.i(0, 2) : 60;
	o.refresh_jac = r.i(0, 2);
	o.precondition = r.b(0.3);
	o.limit_step = r.b(0.3);
	o.max_step = r.u(0.05, 0.5);
	o.time_internals = r.b(0.2);
	bool broyden = r.b();
	R.desc = cat(broyden ? "broyden" : "newton", " n=", n, " fault=", s.fault, " maxit=", o.maxit, " refresh=", o.refresh_jac, " precondition=", o.precondition, " limit=", o.limit_step, " ", o.max_step, " x0=", x0);
	rep().context = R.desc;
	newton::status st;
	try {
		vec x = broyden ? newton::broyden_iterate(s, x0, o, st) : newton::newton_iterate(s, x0, o, st);
		R.say("status", st.conv_status);
		R.work.push_back(st.iters); R.work.push_back(s.n);
		if (s.fault == 0) { R.add(x); R.vals.push_back(st.res); }
	} catch (const InjectedThrow &) { R.say("exception"); }
	rep().count("roots");
	rep().nontrivial(R.desc);
}

static void rest(Rng &r, Rec &R)
{
	int kind = r.i(0, 2);
	R.tol = 1e-11;
	if (kind == 0) {
		int n = r.i(1, 9);
		R.desc = cat("buffer ", n, " ", r.s);
		cyclic_buffer<double> b(n);
		std::vector<double> seen;
		int ops = r.i(1, 60), stored = 0;
		for (int k = 0; k < ops; ++k) {
			int what = r.i(0, 9);
			if (what < 7) { b.push_back(k + 0.25); stored = std::min(stored + 1, n); }
			else if (stored) { int i = r.i(0, stored - 1); R.vals.push_back(b[i]); if (what == 9) b[i] = -k; }
		}
		for (double x : b) R.vals.push_back(x);
		R.say("size", b.size());
	} else if (kind == 1) {
		const Method &m = all_methods()[r.i(0, all_methods().size() - 1)];
		R.desc = cat("registry ", m.name, " ", r.s);
		if (m.implicit) {
			auto s = irk::get_coefficients(m.id);
			R.say(irk::method_to_name(m.id), irk::name_to_method(m.name), s.name, s.order, " ", s.order2, " ", irk::verify_solver_coeffs(s), irk::is_method_explicit(s), irk::is_method_dirk(s), irk::is_method_sdirk(s));
			R.add(s.b); R.add(s.c); R.add(arma::vectorise(s.A)); if (s.b2.n_elem) R.add(s.b2); R.vals.push_back(s.gamma);
			double th = r.u(0, 1);
			if (s.b_interp.n_elem) R.add(irk::project_b(th, s));
			for (auto &x : irk::all_method_names()) R.say(x);
			R.say(irk::name_to_method("none"), irk::method_to_name(77777));
			auto o = irk::default_solver_options();
			R.say(o.rel_tol, o.abs_tol, o.max_dt, o.max_steps, o.adaptive_step_size, o.out_interval, o.time_internals);
		} else {
			auto s = erk::get_coefficients(m.id);
			R.say(erk::method_to_name(m.id), erk::name_to_method(m.name), s.name, s.order, " ", s.order2, " ", erk::verify_solver_coeffs(s));
			R.add(s.b); R.add(s.c); R.add(arma::vectorise(s.A)); if (s.b2.n_elem) R.add(s.b2);
			for (auto &x : erk::all_method_names()) R.say(x);
			R.say(erk::name_to_method("none"), erk::method_to_name(77777));
			auto o = erk::default_solver_options();
			R.say(o.rel_tol, o.abs_tol, o.max_dt, o.max_steps, o.adaptive_step_size, o.out_interval, o.time_internals);
		}
	} else {
		int n = r.i(1, 4);
		vec c = draw(r, n, 0.05, 1);
		c = arma::sort(c);
		for (int k = 1; k < n; ++k) if (c(k) - c(k - 1) < 0.05) c(k) = c(k - 1) + 0.05;
		R.desc = cat("collocation ", c);
		R.tol = 1e-8;
		R.add(arma::vectorise(irk::collocation_interpolate_coeffs(c)) * 1e-3);
	}
	rep().context = R.desc;
	rep().count("others");
	rep().nontrivial(R.desc);
}

void run_case(long id, Rng &r)
{
	Rec R;
	int k = id % 10;
	if (k < 5) rk(r, R);
	else if (k < 7) multi(r, R);
	else if (k < 9) roots(r, R);
	else rest(r, R);
	rep().sample(R.desc);
	write(id, R);
}
