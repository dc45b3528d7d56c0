// Workload generators (problems, configurations) and a uniform view of the
// integrators' results. Included by every harness that drives an integrator.
#ifndef COMMON_HPP
#define COMMON_HPP

#include "rtm.hpp"
#include "ref_tableaux.hpp"

namespace rtm {

// ------------------------------------------------------------ generators --
// All generators pick t0 from the given rng, so absolute time matters.
inline double random_t0(Rng &r)
{
	switch (r.i(0, 5)) {
	case 0: case 1: return 0.0;
	case 2: return r.u(-5, 5);
	case 3: return -1.0;
	case 4: return r.u(-200, 200);
	default: return r.u(0, 3);
	}
}

inline mat random_orthogonal(Rng &r, int n)
{
	mat Q, R;
	arma::qr(Q, R, r.m(n, n) + 0.01 * arma::eye(n, n));
	return Q;
}

// y' = A y, A dense with moderate norm, eigenvalues in the left half plane
// (or mildly unstable when grow is set).
inline Problem p_linear(Rng &r, int n = 0, bool grow = false)
{
	Problem p;
	p.dim = n ? n : r.i(1, 5);
	mat M = r.m(p.dim, p.dim) * r.u(0.3, 2.0);
	arma::cx_vec ev = arma::eig_gen(M);
	double s = arma::max(arma::real(ev));
	mat A = M - (s + (grow ? -r.u(0, 0.5) : r.u(0.05, 1.0))) * arma::eye(p.dim, p.dim);
	p.name = grow ? "linear-grow" : "linear";
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.3, 3.0);
	p.y0 = r.v(p.dim, -2, 2);
	p.f = [A](double, const vec &y) { return vec(A * y); };
	p.J = [A](double, const vec &) { return A; };
	vec y0 = p.y0; double t0 = p.t0;
	p.exact = [A, y0, t0](double t) { return vec(arma::expmat(A * (t - t0)) * y0); };
	p.linear = true;
	p.lip = arma::norm(A, 2);
	return p;
}

// y' = -Q diag(l) Q^T y, l spread over several decades.
inline Problem p_stiff_linear(Rng &r)
{
	Problem p;
	p.dim = r.i(1, 5);
	mat Q = random_orthogonal(r, p.dim);
	vec l(p.dim);
	for (int k = 0; k < p.dim; ++k) l(k) = r.logu(0.3, 1e5);
	mat A = -Q * arma::diagmat(l) * Q.t();
	p.name = "stiff-linear"; p.stiff = true; p.linear = true;
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 3);
	p.y0 = r.v(p.dim, -2, 2);
	vec y0 = p.y0; double t0 = p.t0;
	p.f = [A](double, const vec &y) { return vec(A * y); };
	p.J = [A](double, const vec &) { return A; };
	p.exact = [Q, l, y0, t0](double t) { return vec(Q * arma::diagmat(arma::exp(-l * (t - t0))) * Q.t() * y0); };
	p.lip = arma::max(l);
	return p;
}

// Smooth reference curve used by manufactured problems.
struct Curve {
	vec a, w, ph, c;
	Curve() {}
	Curve(Rng &r, int n) : a(r.v(n, -1.5, 1.5)), w(r.v(n, 0.3, 3.0)), ph(r.v(n, 0, 6)), c(r.v(n, -1, 1)) {}
	vec at(double t) const { return a % arma::sin(w * t + ph) + c; }
	vec dot(double t) const { return a % w % arma::cos(w * t + ph); }
};

// y' = -L (y - phi(t)) + phi'(t), diagonal L between lmin and lmax.
inline Problem p_prothero(Rng &r, double lmin, double lmax)
{
	Problem p;
	p.dim = r.i(1, 4);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 3);
	Curve c(r, p.dim);
	vec l(p.dim);
	for (int k = 0; k < p.dim; ++k) l(k) = r.logu(lmin, lmax);
	p.name = lmax > 50 ? "prothero-stiff" : "prothero";
	p.stiff = lmax > 50;
	p.y0 = c.at(p.t0) + (r.b() ? r.v(p.dim, -0.5, 0.5) : vec(p.dim, arma::fill::zeros));
	vec d0 = p.y0 - c.at(p.t0); double t0 = p.t0;
	p.f = [c, l](double t, const vec &y) { return vec(-l % (y - c.at(t)) + c.dot(t)); };
	p.J = [l](double, const vec &) { return mat(arma::diagmat(-l)); };
	p.exact = [c, l, d0, t0](double t) { return vec(c.at(t) + d0 % arma::exp(-l * (t - t0))); };
	p.lip = arma::max(l);
	return p;
}

// Nonlinear, coupled, non-autonomous with known solution:
// y' = phi' + M (s(y) - s(phi)), s componentwise, M dense.
inline Problem p_manufactured(Rng &r)
{
	Problem p;
	p.dim = r.i(1, 5);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 3);
	Curve c(r, p.dim);
	mat M = r.m(p.dim, p.dim) * r.u(0.2, 0.8) - r.u(0.2, 1.5) * arma::eye(p.dim, p.dim);
	int kind = r.i(0, 2);
	auto s = [kind](const vec &y) -> vec {
		if (kind == 0) return arma::sin(y);
		if (kind == 1) return y / (1.0 + arma::square(y));
		return arma::tanh(y) + 0.3 * y;
	};
	auto ds = [kind](const vec &y) -> vec {
		if (kind == 0) return arma::cos(y);
		if (kind == 1) { vec q = 1.0 + arma::square(y); return (1.0 - arma::square(y)) / arma::square(q); }
		return 1.0 - arma::square(arma::tanh(y)) + 0.3;
	};
	p.name = "manufactured";
	p.y0 = c.at(p.t0);
	p.f = [c, M, s](double t, const vec &y) { return vec(c.dot(t) + M * (s(y) - s(c.at(t)))); };
	p.J = [M, ds](double, const vec &y) { return mat(M * arma::diagmat(ds(y))); };
	p.exact = [c](double t) { return c.at(t); };
	p.lip = arma::norm(M, 2) * 1.3;
	return p;
}

inline Problem p_logistic(Rng &r)
{
	Problem p;
	p.name = "logistic";
	p.dim = r.i(1, 4);
	vec q = r.v(p.dim, 0.2, 3), K = r.v(p.dim, 0.5, 4);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 4);
	p.y0 = r.v(p.dim, 0.05, 3);
	vec y0 = p.y0; double t0 = p.t0;
	p.f = [q, K](double, const vec &y) { return vec(q % y % (1.0 - y / K)); };
	p.J = [q, K](double, const vec &y) { return mat(arma::diagmat(q % (1.0 - 2.0 * y / K))); };
	p.exact = [q, K, y0, t0](double t) { vec e = arma::exp(-q * (t - t0)); return vec(K / (1.0 + (K / y0 - 1.0) % e)); };
	p.lip = 12;
	return p;
}

// y' = -2 t y^2 style time-dependent scalar problems, shifted to t0.
inline Problem p_rational(Rng &r)
{
	Problem p;
	p.name = "rational";
	p.dim = 2;
	p.t0 = r.u(-1, 1); p.t1 = p.t0 + r.u(0.5, 3);
	double a = r.u(0.5, 2), b = r.u(0.5, 2);
	auto ex = [a, b](double t) -> vec { return vec{a / (1 + t * t), b * std::exp(std::sin(t))}; };
	p.y0 = ex(p.t0);
	p.f = [a](double t, const vec &y) { return vec{-2 * t * y(0) * y(0) / a, std::cos(t) * y(1)}; };
	p.J = [a](double t, const vec &y) { return mat{{-4 * t * y(0) / a, 0}, {0, std::cos(t)}}; };
	p.exact = ex;
	p.lip = 16;
	return p;
}

// Pure quadrature y' = g(t).
inline Problem p_quadrature(Rng &r)
{
	Problem p;
	p.name = "quadrature";
	p.dim = r.i(1, 3);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 3);
	Curve c(r, p.dim);
	p.y0 = c.at(p.t0);
	int n = p.dim;
	p.f = [c](double t, const vec &) { return c.dot(t); };
	p.J = [n](double, const vec &) { return mat(n, n, arma::fill::zeros); };
	p.exact = [c](double t) { return c.at(t); };
	p.lip = 1;
	return p;
}

inline Problem p_oscillator(Rng &r)
{
	Problem p;
	p.name = "oscillator";
	int m = r.i(1, 2);
	p.dim = 2 * m;
	vec w = r.v(m, 0.5, 4);
	mat A(p.dim, p.dim, arma::fill::zeros);
	for (int k = 0; k < m; ++k) { A(2 * k, 2 * k + 1) = w(k); A(2 * k + 1, 2 * k) = -w(k); }
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 4);
	p.y0 = r.v(p.dim, -2, 2);
	vec y0 = p.y0; double t0 = p.t0;
	p.f = [A](double, const vec &y) { return vec(A * y); };
	p.J = [A](double, const vec &) { return A; };
	p.exact = [A, y0, t0](double t) { return vec(arma::expmat(A * (t - t0)) * y0); };
	p.linear = true; p.lip = 4;
	return p;
}

// First-order mass-conserving kinetics plus a bimolecular cycle: sum(y) const.
inline Problem p_kinetics(Rng &r)
{
	Problem p;
	p.name = "kinetics";
	p.dim = r.i(2, 5);
	int n = p.dim;
	mat K(n, n, arma::fill::zeros);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { double k = r.u(0, 2); K(i, j) += k; K(j, j) -= k; }
	double q = r.u(0, 1.5);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.5, 4);
	p.y0 = r.v(n, 0.05, 1.5);
	p.f = [K, q, n](double, const vec &y) { vec d = K * y; double v = q * y(0) * y(1); d(0) -= v; d(n - 1) += v; return d; };
	p.J = [K, q, n](double, const vec &y) { mat J = K; J(0, 0) -= q * y(1); J(0, 1) -= q * y(0); J(n - 1, 0) += q * y(1); J(n - 1, 1) += q * y(0); return J; };
	p.invariants.push_back(vec(n, arma::fill::ones));
	p.lip = 12;
	return p;
}

inline Problem p_nonlinear(Rng &r)   // no closed-form solution
{
	Problem p;
	p.t0 = random_t0(r);
	switch (r.i(0, 4)) {
	case 0: {
		double a = r.u(0.5, 2), b = r.u(0.5, 2), c = r.u(0.5, 2), d = r.u(0.5, 2);
		p.name = "lotka-volterra"; p.dim = 2; p.t1 = p.t0 + r.u(0.5, 5);
		p.y0 = r.v(2, 0.3, 2);
		p.f = [=](double, const vec &y) { return vec{y(0) * (a - b * y(1)), -y(1) * (c - d * y(0))}; };
		p.J = [=](double, const vec &y) { return mat{{a - b * y(1), -b * y(0)}, {d * y(1), -c + d * y(0)}}; };
		p.lip = 10; break;
	}
	case 1: {
		double g = r.u(0.5, 5), k = r.u(0, 0.5), F = r.u(0, 1), w = r.u(0.5, 3);
		p.name = "pendulum"; p.dim = 2; p.t1 = p.t0 + r.u(0.5, 5);
		p.y0 = r.v(2, -2, 2);
		p.f = [=](double t, const vec &y) { return vec{y(1), -g * std::sin(y(0)) - k * y(1) + F * std::cos(w * t)}; };
		p.J = [=](double, const vec &y) { return mat{{0, 1}, {-g * std::cos(y(0)), -k}}; };
		p.lip = 6; break;
	}
	case 2: {
		double a = r.u(0.5, 1.5), b = r.u(1, 3);
		p.name = "brusselator"; p.dim = 2; p.t1 = p.t0 + r.u(0.5, 4);
		p.y0 = r.v(2, 0.5, 2.5);
		p.f = [=](double, const vec &y) { double q = y(0) * y(0) * y(1); return vec{a + q - (b + 1) * y(0), b * y(0) - q}; };
		p.J = [=](double, const vec &y) { return mat{{2 * y(0) * y(1) - b - 1, y(0) * y(0)}, {b - 2 * y(0) * y(1), -y(0) * y(0)}}; };
		p.lip = 25; break;
	}
	case 3: {
		double mu = r.logu(0.05, 2);
		p.name = "van-der-pol"; p.dim = 2; p.t1 = p.t0 + r.u(0.3, 3);
		p.y0 = r.v(2, -2, 2);
		p.f = [=](double, const vec &y) { return vec{y(1), ((1 - y(0) * y(0)) * y(1) - y(0)) / mu}; };
		p.J = [=](double, const vec &y) { return mat{{0, 1}, {(-2 * y(0) * y(1) - 1) / mu, (1 - y(0) * y(0)) / mu}}; };
		p.lip = 10 / mu; p.stiff = mu < 0.1; break;
	}
	default: {
		double s = r.u(5, 10), q = r.u(10, 28), b = r.u(1, 3);
		p.name = "lorenz"; p.dim = 3; p.t1 = p.t0 + r.u(0.1, 0.6);
		p.y0 = r.v(3, 0.5, 5);
		p.f = [=](double, const vec &y) { return vec{s * (y(1) - y(0)), y(0) * (q - y(2)) - y(1), y(0) * y(1) - b * y(2)}; };
		p.J = [=](double, const vec &y) { return mat{{-s, s, 0}, {q - y(2), -1, -y(0)}, {y(1), y(0), -b}}; };
		p.lip = 60; break;
	}
	}
	return p;
}

// Large system: 1-D heat equation with reaction, n cells.
inline Problem p_heat(Rng &r)
{
	Problem p;
	p.name = "heat"; p.dim = r.i(6, 14);
	int n = p.dim; double D = r.u(0.5, 20), q = r.u(0, 1);
	p.t0 = random_t0(r); p.t1 = p.t0 + r.u(0.1, 0.6);
	p.y0 = r.v(n, 0, 1);
	p.f = [=](double, const vec &y) {
		vec d(n);
		for (int k = 0; k < n; ++k) {
			double l = k ? y(k - 1) : y(k), u = k + 1 < n ? y(k + 1) : y(k);
			d(k) = D * (l - 2 * y(k) + u) - q * y(k) * y(k);
		}
		return d;
	};
	p.J = [=](double, const vec &y) {
		mat J(n, n, arma::fill::zeros);
		for (int k = 0; k < n; ++k) {
			if (k) { J(k, k - 1) += D; J(k, k) -= D; }
			if (k + 1 < n) { J(k, k + 1) += D; J(k, k) -= D; }
			J(k, k) -= 2 * q * y(k);
		}
		return J;
	};
	p.lip = 4 * D + 2 * q;
	return p;
}

inline Problem p_any_exact(Rng &r)   // non-stiff, known solution
{
	switch (r.i(0, 6)) {
	case 0: return p_linear(r);
	case 1: return p_manufactured(r);
	case 2: return p_logistic(r);
	case 3: return p_rational(r);
	case 4: return p_quadrature(r);
	case 5: return p_prothero(r, 0.2, 20);
	default: return p_oscillator(r);
	}
}
inline Problem p_any(Rng &r, bool allow_stiff)
{
	int k = r.i(0, 9);
	if (k < 5) return p_any_exact(r);
	if (k < 7) return p_nonlinear(r);
	if (k == 7) return p_kinetics(r);
	if (!allow_stiff) return p_linear(r, 0, true);
	if (k == 8) return r.b() ? p_stiff_linear(r) : p_heat(r);
	return p_prothero(r, 1, 1e4);
}

// --------------------------------------------------------- configuration --
struct Method { const char *name; int id; bool implicit; int order, order2; bool adaptive; bool fsal; };
inline const std::vector<Method> &erk_methods()
{
	static const std::vector<Method> m = {
		{"EXPLICIT_EULER", erk::EXPLICIT_EULER, false, 1, 0, false, false},
		{"RUNGE_KUTTA_4", erk::RUNGE_KUTTA_4, false, 4, 0, false, false},
		{"BOGACKI_SHAMPINE_32", erk::BOGACKI_SHAMPINE_32, false, 3, 2, true, true},
		{"CASH_KARP_54", erk::CASH_KARP_54, false, 5, 4, true, false},
		{"DORMAND_PRINCE_54", erk::DORMAND_PRINCE_54, false, 5, 4, true, true},
		{"FEHLBERG_54", erk::FEHLBERG_54, false, 5, 4, true, false},
	};
	return m;
}
inline const std::vector<Method> &irk_methods()
{
	static const std::vector<Method> m = {
		{"IMPLICIT_EULER", irk::IMPLICIT_EULER, true, 1, 0, false, false},
		{"RADAU_IIA_32", irk::RADAU_IIA_32, true, 3, 2, true, false},
		{"RADAU_IIA_53", irk::RADAU_IIA_53, true, 5, 3, true, false},
		{"RADAU_IIA_95", irk::RADAU_IIA_95, true, 9, 5, true, false},
		{"RADAU_IIA_137", irk::RADAU_IIA_137, true, 13, 7, true, false},
		{"LOBATTO_IIIC_43", irk::LOBATTO_IIIC_43, true, 4, 2, true, false},
		{"LOBATTO_IIIC_64", irk::LOBATTO_IIIC_64, true, 6, 3, true, false},
		{"LOBATTO_IIIC_85", irk::LOBATTO_IIIC_85, true, 8, 4, true, false},
		{"GAUSS_LEGENDRE_42", irk::GAUSS_LEGENDRE_42, true, 4, 2, true, false},
		{"GAUSS_LEGENDRE_147", irk::GAUSS_LEGENDRE_147, true, 14, 7, true, false},
	};
	return m;
}
inline const std::vector<Method> &all_methods()
{
	static std::vector<Method> m;
	if (m.empty()) { m = erk_methods(); m.insert(m.end(), irk_methods().begin(), irk_methods().end()); }
	return m;
}
inline const ref::Tableau &tableau(const Method &m)
{
	for (auto &t : ref::all()) if (t.method == m.id && t.implicit == m.implicit) return t;
	throw std::runtime_error("no reference tableau");
}

struct Config {
	Method m;
	double dt = 1e-3, rtol = 1e-4, atol = 1e-3, max_dt = 0;
	long long max_steps = -1;
	bool adaptive = true;
	int out_interval = 0;
	bool time_internals = false;
	double ntol = 1e-9, ndx = 1e-9;
	int nmaxit = 200, nrefresh = 10;
	bool store = true, file = false;
	std::size_t output_interval = 1;
	std::string desc() const
	{
		return cat(m.name, " dt=", dt, " rtol=", rtol, " atol=", atol, " max_dt=", max_dt, " max_steps=", max_steps,
		           " adaptive=", adaptive, " out_interval=", out_interval, " time_internals=", time_internals, " ntol=", ntol, " ndx=", ndx,
		           " nmaxit=", nmaxit, " nrefresh=", nrefresh, " store=", store, " file=", file, " output_interval=", output_interval);
	}
	bool is_adaptive() const { return adaptive && m.adaptive; }
};

inline std::string pdesc(const Problem &p) { return cat(p.name, " dim=", p.dim, " t=[", p.t0, ",", p.t1, "] y0=", p.y0); }

struct Traj {
	bool implicit = false;
	int status = -1;
	std::vector<double> t, err;
	std::vector<vec> y, stages, err_est;
	double elapsed = 0, accept_frac = 0;
	long attempt = 0, reject_err = 0, reject_newton = 0, newton_success = 0, n_div = 0, n_big = 0, n_maxit = 0, fun_evals = 0, jac_evals = 0;
	std::string file;
};

// Set in worker threads, which may not touch the report.
inline bool &in_thread() { static thread_local bool b = false; return b; }

inline Traj run(const Problem &p, const Config &c, Trace &tr, double t0, double t1, const vec &y0)
{
	if (!in_thread()) rep().context = pdesc(p) + " | " + c.desc();
	Fun F(p, tr);
	Traj T;
	output_options oo;
	std::ostringstream fs;
	fs.precision(17);
	oo.output_mode = output_options::NO_OUTPUT;
	if (c.store) oo.enable_store_in_vectors();
	if (c.file) oo.set_output_stream(fs);
	oo.output_interval = c.output_interval;
	T.implicit = c.m.implicit;
	if (c.m.implicit) {
		irk::solver_options so = irk::default_solver_options();
		newton::options no;
		no.tol = c.ntol; no.dx_delta = c.ndx; no.maxit = c.nmaxit; no.refresh_jac = c.nrefresh;
		so.newton_opts = &no;
		so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt; so.max_steps = c.max_steps;
		so.adaptive_step_size = c.adaptive; so.out_interval = c.out_interval; so.time_internals = c.time_internals;
		irk::rk_output s = irk::odeint(F, t0, t1, y0, so, oo, c.m.id, c.dt);
		T.status = s.status; T.t = s.t_vals; T.y = s.y_vals; T.stages = s.stages; T.err_est = s.err_est; T.err = s.err;
		T.elapsed = s.elapsed_time; T.accept_frac = s.accept_frac;
		T.attempt = s.count.attempt; T.reject_err = s.count.reject_err; T.reject_newton = s.count.reject_newton;
		T.newton_success = s.count.newton_success; T.n_div = s.count.newton_incr_diverge;
		T.n_big = s.count.newton_iter_error_too_large; T.n_maxit = s.count.newton_maxit_exceed;
		T.fun_evals = s.count.fun_evals; T.jac_evals = s.count.jac_evals;
	} else {
		erk::solver_options so = erk::default_solver_options();
		so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt; so.max_steps = c.max_steps;
		so.adaptive_step_size = c.adaptive; so.out_interval = c.out_interval; so.time_internals = c.time_internals;
		erk::rk_output s = erk::odeint(F, t0, t1, y0, so, oo, c.m.id, c.dt);
		T.status = s.status; T.t = s.t_vals; T.y = s.y_vals; T.stages = s.stages; T.err_est = s.err_est; T.err = s.err;
		T.elapsed = s.elapsed_time; T.accept_frac = s.accept_frac;
		T.attempt = s.count.attempt; T.reject_err = s.count.reject_err; T.fun_evals = s.count.fun_evals;
	}
	T.file = fs.str();
	return T;
}
inline Traj run(const Problem &p, const Config &c, Trace &tr) { return run(p, c, tr, p.t0, p.t1, p.y0); }


inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline bool same_bits(const vec &a, const vec &b) { return a.n_elem == b.n_elem && (a.n_elem == 0 || !std::memcmp(a.memptr(), b.memptr(), a.n_elem * sizeof(double))); }
inline bool same_bits(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
inline bool same_bits(const std::vector<vec> &a, const std::vector<vec> &b)
{
	if (a.size() != b.size()) return false;
	for (std::size_t k = 0; k < a.size(); ++k) if (!same_bits(a[k], b[k])) return false;
	return true;
}
inline double ulp_tol(double t0, double t1) { return 8 * 2.3e-16 * (std::fabs(t0) + std::fabs(t1)); }

// Bound on the number of constant steps that keeps a case cheap.
inline Config random_config(Rng &r, const Problem &p, const Method &m)
{
	Config c;
	c.m = m;
	double span = p.t1 - p.t0;
	c.adaptive = r.b(0.75);
	c.rtol = r.logu(1e-9, 1e-2);
	c.atol = c.rtol * r.logu(0.01, 100);
	if (m.order <= 4 && c.rtol < 1e-7) c.rtol = 1e-7;
	if (m.order2 <= 2 && c.rtol < 1e-5) c.rtol = 1e-5;
	if (c.atol < 1e-10) c.atol = 1e-10;
	if (m.order <= 4 && c.atol < 1e-7) c.atol = 1e-7;
	if (m.order2 <= 2 && c.atol < 1e-5) c.atol = 1e-5;
	if (c.is_adaptive()) {
		c.dt = r.b(0.2) ? span * r.u(1.0, 10.0) : span * r.logu(1e-6, 1);
		if (r.b(0.4)) c.max_dt = span * r.logu(0.005, 2);
	} else {
		double n = m.implicit ? r.logu(0.5, 60) : r.logu(0.5, 400);
		if (!m.implicit && n < p.lip * span) n = std::min(5000.0, p.lip * span * r.u(1, 2));
		c.dt = span / n;
		if (r.b(0.3)) c.max_dt = c.dt * r.logu(0.3, 3);
	}
	c.out_interval = r.b(0.2) ? r.i(1, 50) : 0;
	c.time_internals = r.b(0.15);
	c.ntol = std::min(1e-6, 0.01 * std::min(c.rtol, c.atol));
	c.ndx = c.ntol;
	c.nmaxit = r.i(50, 400);
	c.nrefresh = r.pick(std::vector<int>{0, 1, 2, 5, 10, 25});
	return c;
}

// Weighted RMS norm documented for the error control.
inline double wrms(const vec &e, const vec &y0, const vec &y1, double atol, double rtol)
{
	double s = 0;
	for (arma::uword k = 0; k < e.n_elem; ++k) {
		double d = e(k) / (atol + rtol * std::max(std::fabs(y0(k)), std::fabs(y1(k))));
		s += d * d;
	}
	return std::sqrt(s / e.n_elem);
}

} // namespace rtm
#endif
