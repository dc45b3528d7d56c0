// C26: solutions transform the way the equations do.
#include "multistep.hpp"
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 20000; }

struct Sol { int status = -1; std::vector<double> t; std::vector<vec> y; };

// kind 0 Runge-Kutta, 1 Adams-Bashforth, 2 BDF
static Sol solve(const Problem &p, int kind, const Config &c, int order)
{
	Trace tr; tr.budget = 1500000;
	Sol s;
	if (kind == 0) { Traj T = run(p, c, tr); s.status = T.status; s.t = T.t; s.y = T.y; return s; }
	Fun F(p, tr);
	multistep::solver_options so; so.order = order;
	auto m = kind == 1 ? multistep::multistep_output() : multistep::bdf(F, p.t0, p.t1, p.y0, so, c.dt);
	if (kind == 1) { auto a = multistep::adams_bashforth(F, p.t0, p.t1, p.y0, so, c.dt); s.status = a.status; s.t = a.t_vals; s.y = a.y_vals; }
	else { s.status = m.status; s.t = m.t_vals; s.y = m.y_vals; }
	return s;
}

static Problem shifted(const Problem &p, double s, bool autonomous)
{
	Problem q = p;
	q.t0 += s; q.t1 = q.t0 + (p.t1 - p.t0);
	if (!autonomous) {
		auto f = p.f; auto J = p.J;
		q.f = [=](double t, const vec &y) { return f(t - s, y); };
		q.J = [=](double t, const vec &y) { return J(t - s, y); };
	}
	return q;
}
// y -> T y + v, with Ti the inverse of T
static Problem affine(const Problem &p, const mat &T, const mat &Ti, const vec &v)
{
	Problem q = p;
	auto f = p.f; auto J = p.J;
	q.y0 = T * p.y0 + v;
	q.f = [=](double t, const vec &y) { return vec(T * f(t, Ti * (y - v))); };
	q.J = [=](double t, const vec &y) { return mat(T * J(t, Ti * (y - v)) * Ti); };
	return q;
}
static Problem stacked(const Problem &a, const Problem &b)
{
	Problem q = a;
	int n = a.dim, m = b.dim;
	q.dim = n + m;
	q.y0 = arma::join_cols(a.y0, b.y0);
	auto f = a.f, g = b.f; auto J = a.J, K = b.J;
	q.f = [=](double t, const vec &y) { return vec(arma::join_cols(f(t, y.head(n)), g(t, y.tail(m)))); };
	q.J = [=](double t, const vec &y) {
		mat M(n + m, n + m, arma::fill::zeros);
		M.submat(0, 0, n - 1, n - 1) = J(t, y.head(n));
		M.submat(n, n, n + m - 1, n + m - 1) = K(t, y.tail(m));
		return M;
	};
	return q;
}
// time runs c times faster
static Problem rescaled_time(const Problem &p, double c)
{
	Problem q = p;
	auto f = p.f; auto J = p.J;
	q.t0 = p.t0 / c; q.t1 = p.t1 / c;
	q.f = [=](double t, const vec &y) { return vec(c * f(t * c, y)); };
	q.J = [=](double t, const vec &y) { return mat(c * J(t * c, y)); };
	return q;
}
// time becomes a component
static Problem autonomized(const Problem &p)
{
	Problem q = p;
	auto f = p.f; auto J = p.J;
	int n = p.dim;
	q.dim = n + 1;
	q.y0 = arma::join_cols(p.y0, vec{p.t0});
	q.f = [=](double, const vec &y) { return vec(arma::join_cols(f(y(n), y.head(n)), vec{1.0})); };
	q.J = [=](double, const vec &y) {
		mat M(n + 1, n + 1, arma::fill::zeros);
		vec x = y.head(n);
		double e = 1e-5;
		M.submat(0, 0, n - 1, n - 1) = J(y(n), x);
		M.submat(0, n, n - 1, n) = (f(y(n) + e, x) - f(y(n) - e, x)) / (2 * e);
		return M;
	};
	return q;
}

// A constant-step integration stopped at a grid point and resumed there.
static void split(Problem p, Config c, Rng &r)
{
	if (!(p.linear && c.m.implicit)) c.dt = std::min(c.dt, 0.7 / p.lip); // resolved steps
	double t0 = std::floor(p.t0), off = p.t0 - t0;
	c.adaptive = false; c.max_dt = 0;
	c.dt = std::ldexp(1.0, std::ilogb(c.dt)); // a grid without rounding
	int n = std::max(2, std::min(1000, int((p.t1 - p.t0) / c.dt)));
	p = shifted(p, -off, false);
	p.t0 = t0; p.t1 = t0 + n * c.dt;
	int k = r.i(1, n - 1);
	std::string d = cat("split after ", k, " of ", n, " steps ", pdesc(p), " | ", c.desc());
	Sol a = solve(p, 0, c, 1);
	Problem q = p; q.t1 = t0 + k * c.dt;
	Sol b1 = solve(q, 0, c, 1);
	if (a.status != SUCCESS || b1.status != SUCCESS) { rep().count("unsuccessful"); return; }
	RTM_CHECK(a.t.size() == n + 1u && b1.t.size() == k + 1u, "split/grid", cat(d, ": ", a.t.size(), " and ", b1.t.size(), " rows"));
	if (a.t.size() != n + 1u || b1.t.size() != k + 1u) return;
	q = p; q.t0 = b1.t.back(); q.y0 = b1.y.back();
	Sol b2 = solve(q, 0, c, 1);
	if (b2.status != SUCCESS) { rep().count("unsuccessful"); return; }
	RTM_CHECK(b2.t.size() == n - k + 1u, "split/grid", cat(d, ": ", b2.t.size(), " rows in the second part"));
	double N = n, big = 1, amp = std::exp(std::min(9.0, p.linear || p.name == "quadrature" ? 4.0 : p.lip * n * c.dt + 1));
	for (auto &y : a.y) big = std::max(big, arma::norm(y, "inf"));
	if (big > 1e5) return;
	double tol = amp * big * 1e-13 * N + (c.m.implicit ? amp * 1e-8 * (1 + 0.1 * N) * (p.stiff ? 10 : 1) : 0);
	for (int i = 0; i <= n; ++i) {
		const vec &y = i <= k ? b1.y[i] : b2.y[std::min<std::size_t>(i - k, b2.y.size() - 1)];
		double err = arma::norm(y - a.y[i], "inf");
		if (!(err <= tol)) { rep().violation("split/rk", cat(d, ": row ", i, " ", y, " instead of ", a.y[i], ", tolerance ", tol)); break; }
		rep().count("rows-compared");
	}
	rep().count("relation/split"); rep().nontrivial(d);
}

void run_case(long id, Rng &r)
{
	static const char *names[] = {"shift", "permute", "double", "stack", "scale", "time-scale", "rotate", "autonomize", "invariant", "split"};
	int rel = id % 10;
	int kind = r.b(0.8) ? 0 : r.i(1, 2), order = r.i(1, kind == 1 ? 5 : 6);
	const Method &m = r.pick(all_methods());
	bool implicit = kind == 2 || (kind == 0 && m.implicit);
	Problem p = rel == 8 ? p_kinetics(r) : r.b(0.6) ? p_any_exact(r) : r.b(0.5) ? p_nonlinear(r) : r.b() ? p_kinetics(r) : implicit ? p_stiff_linear(r) : p_linear(r);
	bool chaotic = p.name == "lorenz";
	double span = p.t1 - p.t0;
	if (chaotic) { p.t1 = p.t0 + std::min(span, 0.2); span = p.t1 - p.t0; }
	Config c = random_config(r, p, m);
	c.file = c.time_internals = false; c.out_interval = 0; c.max_steps = -1;
	c.rtol = std::max(c.rtol, 1e-7); c.atol = std::max(c.atol, 1e-7);
	c.ntol = c.ndx = 1e-10; c.nmaxit = 200;
	bool fixed_only = rel == 3 || rel == 6 || rel == 7;
	if (kind || fixed_only) c.adaptive = false;
	if (kind || !c.is_adaptive()) {
		c.max_dt = 0;
		double n = std::max(r.logu(1.5, 80), implicit && (p.linear || p.name.compare(0, 8, "prothero") == 0 || p.name == "quadrature") ? 1.0 : std::min(1000.0, p.lip * span * (kind == 1 ? r.u(10, 20) : r.u(1.5, 4))));
		c.dt = span / n;
	}
	bool fixed = kind || !c.is_adaptive();
	if (rel == 9) { split(p, c, r); return; }
	Sol a = solve(p, kind, c, order);
	if (rel == 8) {
		std::string d = cat("invariant ", kind ? cat(kind == 1 ? "AB" : "BDF", order) : "", " ", pdesc(p), " | ", c.desc());
		double tol = 1e-12 * a.t.size() + (implicit ? 1e-8 * std::sqrt(double(a.t.size())) : 0) ;
		for (auto &w : p.invariants) for (std::size_t k = 0; k < a.y.size(); ++k) {
			double i0 = arma::dot(w, p.y0), i = arma::dot(w, a.y[k]), s = arma::norm(a.y[k], 1) + arma::norm(p.y0, 1);
			if (s > 1e8) break;
			RTM_CHECK(std::fabs(i - i0) <= tol * s, "invariant", cat(d, ": row ", k, " of ", a.y.size(), " ", i, " instead of ", i0));
			rep().count("invariant-rows");
		}
		if (a.y.size() > 2) { rep().nontrivial(d); rep().sample(d); }
		return;
	}
	Problem q = p; Config e = c;
	std::function<vec(const vec &)> back = [](const vec &y) { return y; };
	std::function<double(double)> tback = [](double t) { return t; };
	double ysc = 1;
	std::string what;
	switch (rel) {
	case 0: {
		// Some problems do not mention t at all; the shift is then invisible.
		bool aut = p.linear || p.name == "logistic" || p.name == "lotka-volterra" || p.name == "brusselator" || p.name == "van-der-pol" || p.name == "lorenz" || p.name == "kinetics";
		double s = r.b() ? r.i(-64, 64) : r.u(-50, 50);
		q = shifted(p, s, aut);
		tback = [s](double t) { return t - s; };
		what = cat("by ", s, aut ? " autonomous" : "");
		break;
	}
	case 1: {
		std::vector<int> perm(p.dim); for (int k = 0; k < p.dim; ++k) perm[k] = k;
		for (int k = p.dim - 1; k > 0; --k) std::swap(perm[k], perm[r.i(0, k)]);
		mat T(p.dim, p.dim, arma::fill::zeros); for (int k = 0; k < p.dim; ++k) T(k, perm[k]) = 1;
		q = affine(p, T, T.t(), vec(p.dim, arma::fill::zeros));
		back = [T](const vec &y) { return vec(T.t() * y); };
		break;
	}
	case 2: q = stacked(p, p); { int n = p.dim; bool h = r.b(); back = [n, h](const vec &y) { return h ? vec(y.head(n)) : vec(y.tail(n)); }; } break;
	case 3: {
		Problem o = p_any_exact(r);
		for (int k = 0; k < 20 && o.name == "rational"; ++k) o = p_any_exact(r);
		if (o.name == "rational") o = p_linear(r);
		bool first = r.b(); int n = p.dim;
		// the other problem keeps its own clock
		q = first ? stacked(p, o) : stacked(o, p);
		q.t0 = p.t0; q.t1 = p.t1; q.name = p.name;
		back = [first, n](const vec &y) { return first ? vec(y.head(n)) : vec(y.tail(n)); };
		break;
	}
	case 4: { // units of y
		double s = std::ldexp(1.0, r.i(-4, 4));
		q = affine(p, s * arma::eye(p.dim, p.dim), arma::eye(p.dim, p.dim) / s, vec(p.dim, arma::fill::zeros));
		e.atol = c.atol * s; e.ntol = c.ntol * s; e.ndx = c.ndx * s;
		back = [s](const vec &y) { return vec(y / s); }; ysc = std::max(1.0, 1 / s);
		what = cat("by ", s);
		break;
	}
	case 5: { // units of t
		double s = std::ldexp(1.0, r.i(-4, 4));
		q = rescaled_time(p, s);
		e.dt = c.dt / s; e.max_dt = c.max_dt / s; e.ntol = c.ntol * std::min(1.0, s);
		tback = [s](double t) { return t * s; };
		what = cat("by ", s);
		break;
	}
	case 6: {
		mat Q = random_orthogonal(r, p.dim);
		vec v = r.b() ? r.v(p.dim, -2, 2) : vec(p.dim, arma::fill::zeros);
		q = affine(p, Q, Q.t(), v);
		back = [Q, v](const vec &y) { return vec(Q.t() * (y - v)); };
		break;
	}
	case 7: q = autonomized(p); { int n = p.dim; back = [n](const vec &y) { return vec(y.head(n)); }; } break;
	}
	std::string d = cat(names[rel], " ", what, " ", kind ? cat(kind == 1 ? "AB" : "BDF", order) : "", " ", pdesc(p), " | ", c.desc());
	Sol b = solve(q, kind, e, order);
	rep().context = d;
	if (a.status != SUCCESS || b.status != SUCCESS) {
		rep().count("unsuccessful");
		// An explicit run fails or succeeds in both forms, unless it blows up.
		if (!implicit && a.status != b.status && rel != 3 && rel != 2) {
			const Sol &s = a.status == SUCCESS ? a : b;
			double big = 0; for (auto &y : s.y) big = std::max(big, arma::norm(y, "inf"));
			RTM_CHECK(big > 1e6, "status", cat(d, ": ", a.status, " and ", b.status));
		}
		// With resolved steps every method succeeds.
		if (implicit && p.lip * (fixed ? c.dt : 1e-3) < 0.05 && kind != 1) RTM_CHECK(a.status == b.status, "status", cat(d, ": ", a.status, " and ", b.status));
		return;
	}
	double amp = std::exp(std::min(9.0, (p.linear || p.name == "quadrature" ? 0.0 : p.lip * span) + (p.name == "linear-grow" ? span : 0) + (chaotic ? 3 : 0) + 1));
	if (p.name == "linear" || p.name == "prothero") amp = 100;
	double big = 1; for (auto &y : a.y) big = std::max(big, arma::norm(y, "inf"));
	for (auto &y : b.y) big = std::max(big, arma::norm(back(y), "inf"));
	if (big > 1e5) { rep().count("too-large"); return; }
	bool same_grid = a.t.size() == b.t.size();
	double worst_t = 0, offs = std::fabs(p.t0) + std::fabs(p.t1) + std::fabs(q.t0) + std::fabs(q.t1);
	for (std::size_t k = 0; same_grid && k < a.t.size(); ++k) worst_t = std::max(worst_t, std::fabs(tback(b.t[k]) - a.t[k]));
	double ttol = fixed ? 1e-15 * (a.t.size() + 4) * offs * (rel == 5 ? 17 : 1) : 1e-6 * span;
	if (same_grid && worst_t > ttol) same_grid = false;
	double N = a.t.size();
	// rounding of t enters through f; the nonlinear solver stops anywhere within its tolerance
	double tol = amp * big * (1e-13 * N + 1e-15 * N * offs * (1 + p.lip)) + (implicit ? amp * 1e-8 * (1 + 0.1 * N) * ysc * (p.stiff ? 10 : 1) * (1 + 0.0 * p.lip) : 0);
	double rate = 0;
	for (std::size_t k = 1; k < a.t.size(); ++k) rate = std::max(rate, arma::norm(a.y[k] - a.y[k - 1], "inf") / (a.t[k] - a.t[k - 1]));
	if (kind) tol += amp * 1e-7 * big;   // adaptive start-up
	if (!fixed) tol += 4 * rate * worst_t;
	if (!fixed) tol += amp * 3e-8 * big * (1 + 0.05 * N);   // step sizes differ by rounding and solver noise
	if (rel == 7 && implicit) tol *= 10;
	if (same_grid) {
		for (std::size_t k = 0; k < a.t.size(); ++k) {
			double err = arma::norm(back(b.y[k]) - a.y[k], "inf");
			if (!(err <= tol)) { rep().violation(cat(names[rel], "/", kind == 0 ? "rk" : kind == 1 ? "ab" : "bdf"), cat(d, ": row ", k, " of ", N, " ", back(b.y[k]), " instead of ", a.y[k], ", difference ", err, ", tolerance ", tol)); break; }
			rep().count("rows-compared");
		}
		rep().count(cat("relation/", names[rel]));
	} else if (fixed) { // a last step of rounding size may come or go
		std::size_t n = std::min(a.t.size(), b.t.size());
		RTM_CHECK(a.t.size() - n <= 1 && b.t.size() - n <= 1, cat(names[rel], "/grid"), cat(d, ": ", a.t.size(), " and ", b.t.size(), " rows"));
		for (std::size_t k = 0; k + 1 < n; ++k) {
			double err = arma::norm(back(b.y[k]) - a.y[k], "inf");
			if (!(err <= tol)) { rep().violation(cat(names[rel], "/", kind == 0 ? "rk" : kind == 1 ? "ab" : "bdf"), cat(d, ": row ", k, " of ", N, " ", back(b.y[k]), " instead of ", a.y[k], ", difference ", err, ", tolerance ", tol)); break; }
		}
		rep().count("grids-differ");
	} else { // the step sequences parted: both must still be accurate
		double err = arma::norm(back(b.y.back()) - a.y.back(), "inf");
		RTM_CHECK(err <= tol + amp * 100 * (c.atol + c.rtol * big) * std::sqrt(N), cat(names[rel], "/final"), cat(d, ": ", back(b.y.back()), " instead of ", a.y.back()));
		std::size_t lo = std::min(a.t.size(), b.t.size()), hi = std::max(a.t.size(), b.t.size());
		RTM_CHECK(hi <= 2 * lo + 10, cat(names[rel], "/steps"), cat(d, ": ", a.t.size(), " and ", b.t.size(), " rows"));
		rep().count(implicit ? "sequences-parted" : "sequences-parted-explicit");
		// Without a nonlinear solver nothing but rounding could tell the two apart.
		double apart = 0, last = std::max(a.t.back() - a.t[a.t.size() - 2], b.t.back() - b.t[b.t.size() - 2]);
		if (hi == lo + 1) { // a last step of rounding size may come or go
			for (std::size_t k = 0; k + 1 < lo; ++k) apart = std::max(apart, std::fabs(tback(b.t[k]) - a.t[k]));
			const auto &l = a.t.size() == hi ? a.t : b.t;
			last = l[hi - 1] - l[hi - 2];
		}
		RTM_CHECK(implicit || (hi == lo + 1 && apart <= ttol && last <= 1e-13 * (offs + span)), cat(names[rel], "/sequence"), cat(d, ": ", a.t.size(), " and ", b.t.size(), " rows, times apart by ", worst_t));
	}
	if (a.t.size() > 2) { rep().nontrivial(d); rep().sample(d); }
}
