// C06: adaptive integration delivers an accuracy commensurate with the
// requested tolerances, also through the default overloads.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 9600; }

// Largest amplification of a perturbation up to time t, from the exact flow of
// nearby initial values is not available in general; these problems are all
// contractive, isometric or (logistic) amplify by at most K/y0.
static Problem pick(Rng &r, bool stiff, double &amp)
{
	amp = 1;
	int k = r.i(0, stiff ? 6 : 5);
	switch (k) {
	case 0: { Problem p = p_oscillator(r); return p; }
	case 1: return p_prothero(r, 0.2, 20);
	case 2: return p_quadrature(r);
	case 3: { Problem p = p_logistic(r); amp = 20; return p; }
	case 4: { Problem p = p_rational(r); amp = 8; return p; }
	case 5: { Problem p = p_linear(r); amp = 0;
		for (int i = 0; i <= 40; ++i) { double t = p.t0 + (p.t1 - p.t0) * i / 40; mat E(p.dim, p.dim); 
			mat A = p.J(0, p.y0); amp = std::max(amp, arma::norm(arma::expmat(A * (t - p.t0)), 2)); }
		return p; }
	default: return r.b() ? p_stiff_linear(r) : p_prothero(r, 20, 1e5);
	}
}

static double worst_error(const Problem &p, const std::vector<double> &t, const std::vector<vec> &y, double atol, double rtol, std::size_t &where)
{
	double w = 0, ysc = 0;
	for (std::size_t k = 0; k < t.size(); ++k) {
		vec e = p.exact(t[k]);
		ysc = std::max(ysc, arma::abs(e).max());
		double q = arma::abs(y[k] - e).max() / (atol + rtol * ysc);
		if (!(q <= w)) { w = q; where = k; }
	}
	return w;
}

void run_case(long id, Rng &r)
{
	std::vector<Method> ms;
	for (auto &m : all_methods()) if (m.adaptive) ms.push_back(m);
	long nm = ms.size() + 2;
	long which = id % nm;
	double amp, sum = 0;
	std::size_t where = 0;
	if (which >= (long)ms.size()) {
		// The overloads that only take the problem.
		bool implicit = which == (long)ms.size();
		Problem p = pick(r, implicit, amp);
		p.t1 = p.t0 + (p.t1 - p.t0) * r.u(0.3, 4);
		Trace tr; Fun F(p, tr);
		rep().context = pdesc(p) + (implicit ? " | irk default" : " | erk default");
		std::string d = rep().context;
		std::vector<double> t; std::vector<vec> y; std::vector<double> er; int status;
		if (implicit) { irk::rk_output s = irk::odeint(F, p.t0, p.t1, p.y0); t = s.t_vals; y = s.y_vals; er = s.err; status = s.status; }
		else { erk::rk_output s = erk::odeint(F, p.t0, p.t1, p.y0); t = s.t_vals; y = s.y_vals; er = s.err; status = s.status; }
		const char *nm_ = implicit ? "irk-default" : "erk-default";
		RTM_CHECK(status == SUCCESS && std::fabs(t.back() - p.t1) <= ulp_tol(p.t0, p.t1), cat("default-failed/", nm_), d);
		double w = worst_error(p, t, y, 1e-3, 1e-4, where);
		// The documented defaults are rel_tol 1e-4 and abs_tol 1e-3.
		for (double e : er) sum += e;
		RTM_CHECK(w <= amp * ((p.stiff ? 150 : 40) + 3 * sum), cat("inaccurate/", nm_), cat(d, " row ", where, " of ", t.size(), ": error is ", w, " times the tolerance"));
		if (std::getenv("C06M")) std::fprintf(stderr, "M %s %s %g %zu\n", nm_, p.name.c_str(), w / (amp * ((p.stiff ? 150 : 40) + 3 * sum)), t.size());
		rep().count("default-overload");
		rep().nontrivial(d);
		return;
	}
	const Method &m = ms[which];
	// The Gauss methods do not damp stiff components, and see no error in them.
	bool gauss = std::strncmp(m.name, "GAUSS", 5) == 0;
	Problem p = pick(r, m.implicit && !gauss, amp);
	Config c = random_config(r, p, m);
	c.adaptive = true;
	c.max_dt = 0;
	// An error the size of the solution may leave its basin of attraction.
	c.rtol = std::min(c.rtol, 3e-3); c.atol = std::min(c.atol, 3e-3);
	c.dt = (p.t1 - p.t0) * r.logu(1e-6, 1e-2);
	Trace tr;
	Traj X = run(p, c, tr);
	std::string d = pdesc(p) + " | " + c.desc();
	RTM_CHECK(X.status == SUCCESS, cat("failed/", m.name), d);
	if (X.status != SUCCESS) return;
	double w = worst_error(p, X.t, X.y, c.atol, c.rtol, where);
	rep().count("trajectories");
	rep().count("rows", X.t.size());
	for (double e : X.err) sum += e;
	double bound = amp * (40 + 3 * sum);
	if (std::getenv("C06M")) std::fprintf(stderr, "M %s %s %g %zu\n", m.name, p.name.c_str(), w / bound, X.t.size());
	RTM_CHECK(w <= bound, cat("inaccurate/", m.name), cat(d, " row ", where, " of ", X.t.size(), ": error is ", w, " times the tolerance"));
	rep().nontrivial(d);
	rep().sample(cat(d, " -> largest error ", w, " times the tolerance over ", X.t.size(), " rows"));
}
