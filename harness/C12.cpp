// C12: honest failure. Non-finite values, unsolvable stages, singularities and
// exceptions thrown by the user's functor end in a truthful status.
#include "multistep.hpp"
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 16000; }

static bool prefix_of(const Traj &X, const Traj &C)
{
	if (X.t.size() > C.t.size() || X.y.size() != X.t.size()) return false;
	for (std::size_t k = 0; k < X.t.size(); ++k) if (!same_bits(X.t[k], C.t[k]) || !same_bits(X.y[k], C.y[k])) return false;
	return true;
}
// What holds of every result, failed or not.
static void honest(const Traj &X, const Problem &p, const std::string &who, const std::string &d)
{
	double tol = ulp_tol(p.t0, p.t1);
	bool fin = true, mono = true;
	for (auto &y : X.y) fin = fin && y.is_finite();
	for (std::size_t k = 1; k < X.t.size(); ++k) mono = mono && X.t[k] > X.t[k - 1];
	RTM_CHECK(!X.t.empty() && same_bits(X.t[0], p.t0) && same_bits(X.y[0], p.y0), cat("start/", who), d);
	RTM_CHECK(fin, cat("non-finite-row/", who), d);
	RTM_CHECK(mono, cat("rows-not-increasing/", who), d);
	if (X.t.empty()) return;
	bool there = std::fabs(X.t.back() - p.t1) <= tol;
	RTM_CHECK(X.status != SUCCESS || there, cat("success-before-end/", who), cat(d, " ended at ", X.t.back()));
	RTM_CHECK(X.status == SUCCESS || X.t.back() < p.t1, cat("failure-at-end/", who), cat(d, " status ", X.status));
}
static std::string res(const Traj &X) { return cat(" -> status=", X.status, " rows=", X.t.size(), " last=", X.t.empty() ? 0.0 : X.t.back()); }

static void transient(Rng &r, const Method &m)
{
	Problem p = p_any_exact(r);
	if (m.implicit && r.b(0.2)) p = p_prothero(r, 10, 1e4);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 300);
	const char *fam = m.implicit ? "irk" : "erk";
	Trace t0; t0.budget = 200000;
	Traj C;
	try { C = run(p, c, t0); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	if (C.status != SUCCESS) { rep().count("clean-run-failed"); return; }
	bool jac = m.implicit && r.b(0.35);
	long n = jac ? t0.njac : t0.nfun;
	if (n < 1) return;
	long a = r.i(0, n - 1), b = a + (r.b() ? 0 : r.i(1, 6));
	int what = r.pick(std::vector<int>{1, 2, 4});
	Trace tr; tr.budget = 3000000;
	tr.fault = [=](char k, long i) { return (jac ? k == 'j' : k == 'f') && i >= a && i <= b ? what : 0; };
	std::string d = cat(pdesc(p), " | ", c.desc(), " fault ", what, " in ", jac ? "jac" : "fun", " calls ", a, "..", b, " of ", n);
	Traj X = run(p, c, tr);
	d += res(X);
	rep().count("transient-faults", tr.faults_hit);
	honest(X, p, fam, d);
	if (!c.is_adaptive()) {
		// A constant step cannot recover: the rows are those of the clean run, cut.
		RTM_CHECK(prefix_of(X, C), cat("fault-changed-rows/", fam), d);
		RTM_CHECK(X.status != SUCCESS || X.t.size() == C.t.size(), cat("fault-lost-rows/", fam), d);
		if (!m.implicit && tr.faults_hit) RTM_CHECK(X.status == GENERAL_ERROR, cat("fault-unnoticed/", fam), d);
		if (X.status != SUCCESS) { RTM_CHECK(X.status == GENERAL_ERROR, cat("status/", fam), d); rep().count("constant-step-failures"); }
	} else {
		// Step size control retries with a smaller step, and the fault is gone.
		bool fatal = m.fsal && !jac && a == 0; // the only evaluation at t0
		if (!fatal) {
			RTM_CHECK(X.status == SUCCESS, cat("no-recovery/", fam), d);
			rep().count("recoveries");
			// The first rows were computed before the fault.
			if (X.status == SUCCESS && p.exact && p.lip < 30 && c.rtol >= 1e-7) {
				double e0 = 0, e1 = 0;
				for (std::size_t k = 0; k < C.t.size(); ++k) e0 = std::max(e0, arma::norm(C.y[k] - p.exact(C.t[k]), "inf"));
				for (std::size_t k = 0; k < X.t.size(); ++k) e1 = std::max(e1, arma::norm(X.y[k] - p.exact(X.t[k]), "inf"));
				double ymax = arma::norm(p.y0, "inf");
				for (auto &y : C.y) ymax = std::max(ymax, arma::norm(y, "inf"));
				RTM_CHECK(e1 <= 10 * e0 + 100 * (c.atol + c.rtol * ymax), cat("inaccurate-after-fault/", fam), cat(d, " error ", e1, " clean ", e0));
				rep().count("accuracy-after-fault");
			}
		}
	}
	rep().nontrivial(d); rep().sample(d);
}

// The right-hand side does not exist beyond some time.
static void cliff(Rng &r, const Method &m)
{
	Problem p = p_any_exact(r);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 300);
	c.rtol = std::max(c.rtol, 1e-6); c.atol = std::max(c.atol, 1e-6);
	const char *fam = m.implicit ? "irk" : "erk";
	double tc = p.t0 + (p.t1 - p.t0) * r.u(0.05, 0.8);
	double bad = r.pick(std::vector<double>{std::nan(""), HUGE_VAL, -HUGE_VAL});
	Trace t0; t0.budget = 200000;
	try { if (run(p, c, t0).status != SUCCESS) { rep().count("clean-run-failed"); return; } } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	auto f = p.f;
	p.f = [=](double t, const vec &y) { vec k = f(t, y); if (t > tc) k.fill(bad); return k; };
	Trace tr; tr.budget = 1000000;
	Traj X = run(p, c, tr);
	std::string d = cat(pdesc(p), " | ", c.desc(), " no right-hand side after ", tc, res(X));
	honest(X, p, fam, d);
	double h = std::min(c.dt, p.t1 - p.t0); if (c.max_dt > 0) h = std::min(h, c.max_dt);
	// (A constant step from before the cliff may end at t1 without a stage beyond it.)
	RTM_CHECK(X.status == GENERAL_ERROR || (!c.is_adaptive() && X.status == SUCCESS && p.t1 - h <= tc), cat("cliff-status/", fam), d);
	if (c.is_adaptive()) {
		// Only a method without a stage at the end of the step can end one behind it.
		std::size_t n = X.t.size();
		double seen = arma::vec(tableau(m).c).max() > 1 - 1e-9 ? X.t.back() : X.t[n > 1 ? n - 2 : 0];
		RTM_CHECK(seen <= tc + ulp_tol(p.t0, p.t1), cat("past-the-cliff/", fam), d);
		RTM_CHECK(X.t.back() >= tc - 1e-3 * (p.t1 - p.t0), cat("stopped-short/", fam), d);
	} else {
		RTM_CHECK(X.t.back() <= tc + h + ulp_tol(p.t0, p.t1), cat("past-the-cliff/", fam), d);
		RTM_CHECK(X.t.back() >= tc - h - ulp_tol(p.t0, p.t1) || X.t.size() == 1, cat("stopped-short/", fam), d);
	}
	rep().count("cliffs"); rep().nontrivial(d);
}

// y' = y^2 (or the like) leaves every bound before t1.
static void blow_up(Rng &r, const Method &m)
{
	Problem p;
	p.name = "blow-up"; p.dim = r.i(1, 2); p.t0 = r.u(-2, 2);
	double pw = r.u(2, 3), y0 = r.u(0.8, 3);
	double T = 1 / ((pw - 1) * std::pow(y0, pw - 1));
	p.t1 = p.t0 + T * r.u(1.3, 3);
	p.y0 = vec(p.dim); p.y0.fill(y0);
	p.f = [pw](double, const vec &y) { return vec(arma::pow(arma::abs(y), pw)); };
	p.J = [pw](double, const vec &y) { return mat(arma::diagmat(pw * arma::sign(y) % arma::pow(arma::abs(y), pw - 1))); };
	Config c = random_config(r, p, m);
	c.adaptive = true; c.rtol = r.logu(1e-6, 1e-3); c.atol = c.rtol; c.dt = T * r.logu(1e-4, 0.2); c.max_dt = 0;
	Trace tr; tr.budget = 2000000;
	Traj X;
	X = run(p, c, tr);
	std::string d = cat(pdesc(p), " power=", pw, " | ", c.desc(), " exists until ", p.t0 + T, res(X));
	honest(X, p, "erk", d);
	RTM_CHECK(X.status == GENERAL_ERROR, "blow-up-status/erk", d);
	RTM_CHECK(X.t.back() <= p.t0 + T * 1.05, "past-the-singularity/erk", d);
	RTM_CHECK(X.t.back() >= p.t0 + T * 0.9, "stopped-short/erk", d);
	rep().count("blow-ups"); rep().nontrivial(d);
}

// Too few Newton iterations for a constant step.
static void newton_fails(Rng &r, const Method &m)
{
	Problem p = r.b() ? p_nonlinear(r) : p_manufactured(r);
	Config c = random_config(r, p, m);
	c.adaptive = false; c.max_dt = 0;
	c.dt = (p.t1 - p.t0) / r.u(1, 40);
	c.nmaxit = 2000; c.nrefresh = 1;
	Trace t0; t0.budget = 200000;
	Traj C;
	try { C = run(p, c, t0); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	Config q = c; q.nmaxit = r.i(1, 8);
	Trace tr; tr.budget = 400000;
	Traj X = run(p, q, tr);
	std::string d = cat(pdesc(p), " | ", q.desc(), " clean:", res(C), res(X));
	honest(X, p, "irk", d);
	RTM_CHECK(X.status == SUCCESS || X.status == GENERAL_ERROR, "status/irk", d);
	RTM_CHECK(prefix_of(X, C), "newton-limit-changed-rows", d);
	if (C.status == SUCCESS) RTM_CHECK(X.status != SUCCESS || X.t.size() == C.t.size(), "newton-limit-lost-rows", d);
	rep().count(X.status == SUCCESS ? "newton-limit-enough" : "newton-limit-failed"); rep().nontrivial(d);
	// With step size control the same limit only costs smaller steps. (Each
	// attempt costs function evaluations, so a limit of 1 can never work.)
	if (m.adaptive && q.nmaxit >= 4 && X.status != SUCCESS && C.status == SUCCESS) {
		q.adaptive = true; q.rtol = q.atol = 1e-3;
		Trace t2; t2.budget = 2000000;
		Traj Z = run(p, q, t2);
		std::string e = cat(pdesc(p), " | ", q.desc(), res(Z));
		honest(Z, p, "irk", e);
		RTM_CHECK(Z.status == SUCCESS, "newton-limit-not-overcome", e);
		rep().count("newton-limit-overcome");
	}
}

// Nothing ever works: the step shrinks to nothing and the run must end.
static void hopeless(Rng &r, const Method &m)
{
	Problem p = p_any(r, false);
	if (r.b(0.7)) p = p_linear(r);
	double span = p.t1 - p.t0;
	if (r.b(0.7) && p.linear) { p.t0 = 0; p.t1 = span; } // near 0 there are steps down to the smallest number
	Config c = random_config(r, p, m);
	c.adaptive = true;
	Trace tr; tr.budget = 2000000;
	int kind = r.i(0, 3);
	if (kind == 0) { c.nmaxit = r.i(0, 1); c.ntol = c.ndx = 1e-12; }
	if (kind == 1) tr.fault = [](char k, long) { return k == 'j' ? 1 : 0; };
	if (kind == 2) tr.fault = [](char k, long) { return k == 'f' ? 1 : 0; };
	if (kind == 3) tr.fault = [](char k, long i) { return k == 'f' && i > 3 ? 2 : 0; };
	if (!m.implicit && kind < 2) return;
	const char *fam = m.implicit ? "irk" : "erk";
	Traj X = run(p, c, tr);
	std::string d = cat(pdesc(p), " | ", c.desc(), " hopeless ", kind, res(X));
	honest(X, p, fam, d);
	if (kind == 0 || X.t.size() < 2) RTM_CHECK(X.status != SUCCESS, cat("hopeless-success/", fam), d);
	RTM_CHECK(X.t.size() <= 2, cat("hopeless-steps/", fam), d);
	rep().count("hopeless"); rep().nontrivial(d);
}

static void throwing(Rng &r, const Method &m)
{
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 300);
	const char *fam = m.implicit ? "irk" : "erk";
	Trace t0; t0.budget = 100000;
	Traj C;
	try { C = run(p, c, t0); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	bool jac = m.implicit && r.b(0.3);
	long n = jac ? t0.njac : t0.nfun;
	if (n < 1) return;
	long a = r.i(0, n - 1);
	Trace tr;
	tr.fault = [=](char k, long i) { return (jac ? k == 'j' : k == 'f') && i == a ? 3 : 0; };
	std::string d = cat(pdesc(p), " | ", c.desc(), " throw in ", jac ? "jac" : "fun", " call ", a, " of ", n);
	bool caught = false;
	try { run(p, c, tr); } catch (const InjectedThrow &e) { caught = e.tag == (jac ? 43 : 42); }
	RTM_CHECK(caught, cat("exception-lost/", fam), d);
	RTM_CHECK((jac ? tr.njac : tr.nfun) == a + 1, cat("work-after-exception/", fam), cat(d, " made ", jac ? tr.njac : tr.nfun, " calls"));
	Trace t1;
	Traj Z = run(p, c, t1);
	RTM_CHECK(Z.status == C.status && same_bits(Z.t, C.t) && same_bits(Z.y, C.y), cat("exception-left-traces/", fam), d);
	rep().count("exceptions"); rep().nontrivial(d);
}

static void multistep_faults(Rng &r)
{
	bool ab = r.b();
	Problem p = p_any_exact(r);
	multistep::solver_options so; so.order = r.i(1, ab ? 5 : 6);
	double dt = (p.t1 - p.t0) / r.logu(so.order + 2, 100);
	auto go = [&](Trace &tr) {
		Fun F(p, tr);
		basic_output o;
		if (ab) o = multistep::adams_bashforth(F, p.t0, p.t1, p.y0, so, dt);
		else o = multistep::bdf(F, p.t0, p.t1, p.y0, so, dt);
		Traj T; T.status = o.status; T.t = o.t_vals; T.y = o.y_vals;
		return T;
	};
	const char *who = ab ? "ab" : "bdf";
	std::string d = cat(pdesc(p), " | ", who, " order=", so.order, " dt=", dt);
	rep().context = d;
	Trace t0; t0.budget = 500000;
	Traj C = go(t0);
	if (C.status != SUCCESS) { rep().count("clean-run-failed"); return; }
	Trace tr; tr.budget = 3000000;
	int kind = r.i(0, 3);
	bool jac = !ab && r.b(0.3);
	long n = jac ? t0.njac : t0.nfun, a = r.i(0, n - 1);
	double tc = p.t0 + (p.t1 - p.t0) * r.u(0.02, 0.95);
	auto f = p.f;
	Problem p0 = p;
	if (kind == 0) p.f = [=](double t, const vec &y) { vec k = f(t, y); if (t > tc) k(0) = std::nan(""); return k; };
	else if (kind == 3) tr.fault = [=](char k, long i) { return (jac ? k == 'j' : k == 'f') && i == a ? 3 : 0; };
	else tr.fault = [=](char k, long i) { return (jac ? k == 'j' : k == 'f') && i == a ? (kind == 1 ? 1 : 2) : 0; };
	d += cat(" kind=", kind, " jac=", jac, " call=", a, "/", n, " tc=", tc);
	if (kind == 3) {
		bool caught = false;
		try { go(tr); } catch (const InjectedThrow &e) { caught = e.tag == (jac ? 43 : 42); }
		RTM_CHECK(caught, cat("exception-lost/", who), d);
		Trace t1; p = p0;
		Traj Z = go(t1);
		RTM_CHECK(Z.status == C.status && same_bits(Z.t, C.t) && same_bits(Z.y, C.y), cat("exception-left-traces/", who), d);
		rep().count("exceptions");
		return;
	}
	Traj X = go(tr);
	d += res(X);
	bool fin = true;
	for (auto &y : X.y) fin = fin && y.is_finite();
	RTM_CHECK(fin, cat("non-finite-row/", who), d);
	RTM_CHECK(!X.t.empty() && X.t.size() == X.y.size() && same_bits(X.t[0], p.t0), cat("start/", who), d);
	RTM_CHECK(X.status != SUCCESS || X.t.back() >= p.t1 - ulp_tol(p.t0, p.t1), cat("success-before-end/", who), d);
	RTM_CHECK(X.status == SUCCESS || X.t.size() < C.t.size(), cat("failure-at-end/", who), d);
	if (kind == 0) {
		if (tc < p.t1 - 2 * dt) RTM_CHECK(X.status != SUCCESS, cat("cliff-status/", who), d);
		RTM_CHECK(X.t.back() <= std::max(tc + dt, p.t0) + 100 * ulp_tol(p.t0, p.t1), cat("past-the-cliff/", who), d);
	}
	rep().count("multistep-faults"); rep().nontrivial(d);
}

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	if (id % 13 == 5 && m.adaptive) { hopeless(r, m); return; }
	switch (r.i(0, 9)) {
	case 0: case 1: case 2: case 3: transient(r, m); break;
	case 4: case 5: cliff(r, m); break;
	case 6: throwing(r, m); break;
	case 7: multistep_faults(r); break;
	case 8: if (m.implicit) { newton_fails(r, m); break; } // fall through
	default:
		if (!m.implicit && m.adaptive) blow_up(r, m); else throwing(r, m);
	}
}
