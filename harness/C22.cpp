// C22: method names, codes, coefficients and defaults agree.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 20000; }

struct Entry { const char *name; int code; };
static const std::vector<Entry> irks = {
	{"IMPLICIT_EULER", irk::IMPLICIT_EULER}, {"RADAU_IIA_32", irk::RADAU_IIA_32}, {"RADAU_IIA_53", irk::RADAU_IIA_53}, {"RADAU_IIA_95", irk::RADAU_IIA_95}, {"RADAU_IIA_137", irk::RADAU_IIA_137},
	{"LOBATTO_IIIA_43", irk::LOBATTO_IIIA_43}, {"LOBATTO_IIIA_85", irk::LOBATTO_IIIA_85}, {"LOBATTO_IIIA_127", irk::LOBATTO_IIIA_127},
	{"LOBATTO_IIIC_43", irk::LOBATTO_IIIC_43}, {"LOBATTO_IIIC_64", irk::LOBATTO_IIIC_64}, {"LOBATTO_IIIC_85", irk::LOBATTO_IIIC_85}, {"LOBATTO_IIIC_127", irk::LOBATTO_IIIC_127},
	{"GAUSS_LEGENDRE_42", irk::GAUSS_LEGENDRE_42}, {"GAUSS_LEGENDRE_63", irk::GAUSS_LEGENDRE_63}, {"GAUSS_LEGENDRE_105", irk::GAUSS_LEGENDRE_105}, {"GAUSS_LEGENDRE_147", irk::GAUSS_LEGENDRE_147}};
static const std::vector<Entry> erks = {
	{"EXPLICIT_EULER", erk::EXPLICIT_EULER}, {"RUNGE_KUTTA_4", erk::RUNGE_KUTTA_4}, {"BOGACKI_SHAMPINE_32", erk::BOGACKI_SHAMPINE_32},
	{"CASH_KARP_54", erk::CASH_KARP_54}, {"DORMAND_PRINCE_54", erk::DORMAND_PRINCE_54}, {"FEHLBERG_54", erk::FEHLBERG_54}};

static std::string name_of(bool im, int c) { const char *s = im ? irk::method_to_name(c) : erk::method_to_name(c); return s ? s : "(null)"; }
static int code_of(bool im, const std::string &s) { return im ? irk::name_to_method(s) : erk::name_to_method(s); }
static std::vector<std::string> names(bool im) { return im ? irk::all_method_names() : erk::all_method_names(); }

static std::string junk(Rng &r, const std::vector<Entry> &es)
{
	std::string s = r.pick(es).name;
	switch (r.i(0, 6)) {
	case 0: return "";
	case 1: return s + " ";
	case 2: return s.substr(0, s.size() - 1);
	case 3: for (char &c : s) c = std::tolower(c); return s;
	case 4: { std::string q; int n = r.i(1, 30); for (int k = 0; k < n; ++k) q += char(r.i(33, 126)); return q; }
	case 5: return s + s;
	default: return "RADAU_IIA_" + std::to_string(r.i(1000, 9999));
	}
}

// The registry after any sequence of lookups is the registry before.
static void lookups(Rng &r)
{
	std::string h;
	int n = r.i(1, 25);
	for (int k = 0; k < n; ++k) {
		bool im = r.b();
		const std::vector<Entry> &es = im ? irks : erks, &other = im ? erks : irks;
		const char *fam = im ? "irk" : "erk";
		rep().context = h;
		switch (r.i(0, 5)) {
		case 0: {
			const Entry &e = r.pick(es);
			h += cat(" ", fam, " name of ", e.code);
			RTM_CHECK(name_of(im, e.code) == e.name, "name-of-code", cat(h, ": ", name_of(im, e.code)));
			break;
		}
		case 1: {
			const Entry &e = r.pick(es);
			h += cat(" ", fam, " code of ", e.name);
			RTM_CHECK(code_of(im, e.name) == e.code, "code-of-name", cat(h, ": ", code_of(im, e.name)));
			break;
		}
		case 2: {
			std::string s = r.b(0.3) ? std::string(r.pick(other).name) : junk(r, es);
			h += cat(" ", fam, " code of '", s, "'");
			int c = code_of(im, s);
			for (auto &e : es) RTM_CHECK(c != e.code, "unknown-name", cat(h, ": ", c));
			rep().count("unknown-names");
			break;
		}
		case 3: {
			int c = r.b(0.3) ? r.pick(other).code : r.b() ? r.i(-5, 300) : r.i(-1000000, 1000000);
			bool known = false;
			for (auto &e : es) known = known || e.code == c;
			if (known) break;
			h += cat(" ", fam, " name of ", c);
			std::string s = name_of(im, c);
			for (auto &e : es) RTM_CHECK(s != e.name, "unknown-code", cat(h, ": ", s));
			rep().count("unknown-codes");
			break;
		}
		case 4: {
			h += cat(" ", fam, " list");
			std::vector<std::string> l = names(im), w;
			for (auto &e : es) w.push_back(e.name);
			std::sort(l.begin(), l.end()); std::sort(w.begin(), w.end());
			RTM_CHECK(l == w, cat("list/", fam), cat(h, ": ", l.size(), " names instead of ", w.size()));
			break;
		}
		default: { // round trips
			const Entry &e = r.pick(es);
			RTM_CHECK(code_of(im, name_of(im, e.code)) == e.code && name_of(im, code_of(im, e.name)) == e.name, "round-trip", cat(h, " ", e.name));
		}
		}
		rep().count("lookups");
	}
	rep().nontrivial(h); rep().sample(h);
}

template <typename C> static void sizes(const C &sc, const ref::Tableau &T, const char *name)
{
	std::size_t s = T.b.size();
	RTM_CHECK(sc.b.n_elem == s && sc.c.n_elem == s && sc.A.n_rows == s && sc.A.n_cols == s, cat("size/", name), name);
	RTM_CHECK(T.order2 == 0 || sc.b2.n_elem == s, cat("embedded-size/", name), name);
	RTM_CHECK(T.order2 != 0 || sc.b2.n_elem == 0, cat("spurious-embedded/", name), name);
	RTM_CHECK(sc.name && std::string(sc.name) == name, cat("name/", name), cat(name, " is called ", sc.name ? sc.name : "(null)"));
	RTM_CHECK(sc.order == T.order, cat("order/", name), cat(name, " order ", sc.order));
	if (T.order2) RTM_CHECK(sc.order2 == T.order2, cat("order2/", name), cat(name, " order2 ", sc.order2));
	rep().count("coefficient-sets");
}

static void coefficients(Rng &r)
{
	for (const Method &m : erk_methods()) {
		erk::solver_coeffs sc = erk::get_coefficients(m.id);
		const ref::Tableau &T = tableau(m);
		sizes(sc, T, m.name);
		RTM_CHECK(erk::verify_solver_coeffs(sc), cat("not-valid/", m.name), m.name);
		RTM_CHECK(sc.FSAL == T.fsal, cat("FSAL/", m.name), m.name);
		for (std::size_t i = 0; i < T.b.size(); ++i) {
			double s = 0;
			for (std::size_t j = 0; j < T.b.size(); ++j) { s += sc.A(i, j); if (j >= i) RTM_CHECK(sc.A(i, j) == 0, cat("not-explicit/", m.name), m.name); }
			RTM_CHECK(std::fabs(s - sc.c(i)) < 1e-13, cat("row-sum/", m.name), m.name);
		}
		if (sc.FSAL) RTM_CHECK(arma::norm(sc.A.row(T.b.size() - 1).t() - sc.b) < 1e-14 && sc.c(T.b.size() - 1) == 1, cat("FSAL/", m.name), m.name);
		// A coefficient set that is inconsistent in size is not valid.
		erk::solver_coeffs w = sc;
		int what = r.i(0, 3);
		if (what == 0) w.b.set_size(w.b.n_elem + 1); else if (what == 1) w.c.set_size(w.c.n_elem + r.i(1, 3)); else if (what == 2) w.A.set_size(w.A.n_rows, w.A.n_cols + 1); else w.A.set_size(w.A.n_rows + 1, w.A.n_cols);
		RTM_CHECK(!erk::verify_solver_coeffs(w), cat("accepts-wrong-sizes/", what), m.name);
		rep().count("wrong-sizes");
		// One that is not explicit is not valid either.
		w = sc;
		int i = r.i(0, T.b.size() - 1), j = r.i(i, T.b.size() - 1);
		w.A(i, j) = r.u(0.01, 1) * (r.b() ? 1 : -1);
		RTM_CHECK(!erk::verify_solver_coeffs(w), "accepts-implicit", cat(m.name, " with A(", i, ",", j, ")=", w.A(i, j)));
		rep().count("implicit-entries");
	}
	for (const Entry &e : irks) {
		const ref::Tableau *T = nullptr;
		for (auto &t : ref::all()) if (t.implicit && t.method == e.code) T = &t;
		irk::solver_coeffs sc = irk::get_coefficients(e.code);
		if (!T) {
			// Declared, not implemented: must not pass as a method.
			RTM_CHECK(!irk::verify_solver_coeffs(sc) || sc.A.n_rows == sc.b.n_elem, cat("size/", e.name), e.name);
			continue;
		}
		sizes(sc, *T, e.name);
		RTM_CHECK(irk::verify_solver_coeffs(sc), cat("not-valid/", e.name), e.name);
		bool ex = true, di = true, sd = true;
		for (std::size_t i = 0; i < T->b.size(); ++i) for (std::size_t j = 0; j < T->b.size(); ++j) {
			if (T->A[i][j] != 0 && j >= i) ex = false;
			if (T->A[i][j] != 0 && j > i) di = false;
			if (std::fabs(T->A[i][i] - T->A[0][0]) > 1e-13) sd = false;
		}
		RTM_CHECK(irk::is_method_explicit(sc) == ex, cat("is_method_explicit/", e.name), e.name);
		RTM_CHECK(irk::is_method_dirk(sc) == di, cat("is_method_dirk/", e.name), e.name);
		RTM_CHECK(irk::is_method_sdirk(sc) == (di && sd), cat("is_method_sdirk/", e.name), e.name);
		// Mutated and random coefficient sets.
		irk::solver_coeffs w = sc;
		int what = r.i(0, 3);
		if (what == 0) w.b.set_size(w.b.n_elem + 1); else if (what == 1) w.c.set_size(w.c.n_elem + r.i(1, 3)); else if (what == 2) w.A.set_size(w.A.n_rows, w.A.n_cols + 1); else w.A.set_size(w.A.n_rows + 1, w.A.n_cols);
		RTM_CHECK(!irk::verify_solver_coeffs(w), cat("accepts-wrong-sizes/", what), e.name);
		rep().count("wrong-sizes");
		// Printing shows every number.
		std::ostringstream o;
		o << sc;
		RTM_CHECK(o.str().find(e.name) != std::string::npos, cat("printed-name/", e.name), o.str());
	}
	{
		irk::solver_coeffs w; w.name = ""; int s = r.i(1, 6);
		w.b = r.v(s); w.c = r.v(s); w.A.zeros(s, s);
		int kind = r.i(0, 3); // explicit, dirk, sdirk, full
		double g = r.u(0.1, 1);
		for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) {
			if (j < i) w.A(i, j) = r.b(0.8) ? r.u(-1, 1) : 0;
			if (j == i && kind) w.A(i, j) = kind == 2 ? g : r.u(0.1, 1);
		}
		if (kind == 3 && s > 1) { int i = r.i(0, s - 2); w.A(i, r.i(i + 1, s - 1)) = r.u(0.1, 1); }
		bool full = kind == 3 && s > 1, dirk = !full, sd = dirk && (kind == 0 || kind == 2 || s == 1), ex = kind == 0;
		std::string d = cat("random coefficients of kind ", kind, " with ", s, " stages");
		RTM_CHECK(irk::is_method_explicit(w) == ex, "is_method_explicit", d);
		RTM_CHECK(irk::is_method_dirk(w) == dirk, "is_method_dirk", d);
		RTM_CHECK(irk::is_method_sdirk(w) == sd, "is_method_sdirk", d);
		RTM_CHECK(irk::verify_solver_coeffs(w), "not-valid", d);
		rep().count("random-sets");
	}
	// Unknown methods: empty or otherwise not valid, and never the coefficients of another one.
	int c = r.b(0.4) ? r.i(-3, 320) : r.i(-100000, 100000);
	bool ik = false, ek = false;
	for (auto &e : irks) ik = ik || e.code == c;
	for (auto &e : erks) ek = ek || e.code == c;
	if (!ik) { irk::solver_coeffs u = irk::get_coefficients(c); RTM_CHECK(!irk::verify_solver_coeffs(u), "unknown-coefficients/irk", cat("code ", c)); rep().count("unknown-coefficients"); }
	if (!ek) { erk::solver_coeffs u = erk::get_coefficients(c); RTM_CHECK(!erk::verify_solver_coeffs(u), "unknown-coefficients/erk", cat("code ", c)); rep().count("unknown-coefficients"); }
	rep().nontrivial(cat("coefficients ", c));
}

static void defaults()
{
	irk::solver_options i = irk::default_solver_options(), i0;
	erk::solver_options e = erk::default_solver_options(), e0;
	auto common = [](const common_solver_options &a, const common_solver_options &b, const char *fam) {
		RTM_CHECK(a.rel_tol == b.rel_tol && a.abs_tol == b.abs_tol && a.max_dt == b.max_dt && a.max_steps == b.max_steps && a.internal_solver == b.internal_solver && a.out_interval == b.out_interval && a.time_internals == b.time_internals, cat("defaults/", fam), "");
		RTM_CHECK(a.rel_tol > 0 && a.rel_tol <= 1e-2 && a.abs_tol > 0 && a.abs_tol <= 1e-2 && a.max_dt == 0 && a.max_steps < 0 && !a.time_internals && a.out_interval == 0, cat("default-values/", fam), cat("rel_tol ", a.rel_tol, " abs_tol ", a.abs_tol));
	};
	common(i, i0, "irk"); common(e, e0, "erk");
	RTM_CHECK(i.adaptive_step_size && e.adaptive_step_size, "default-not-adaptive", "");
	newton::options n;
	i.newton_opts = &n; e.newton_opts = &n;
	RTM_CHECK(irk::verify_solver_options(i), "default-options-not-valid/irk", "");
	RTM_CHECK(erk::verify_solver_options(e), "default-options-not-valid/erk", "");
	RTM_CHECK(n.tol > 0 && n.tol <= 1e-3 && n.dx_delta > 0 && n.dx_delta <= 1e-3 && n.maxit >= 10 && n.max_step <= 0 && n.refresh_jac >= 0 && !n.limit_step && !n.time_internals, "default-values/newton", cat("tol ", n.tol, " dx_delta ", n.dx_delta, " maxit ", n.maxit));
	rep().count("defaults");
}

void run_case(long id, Rng &r)
{
	if (id % 2) lookups(r);
	else { coefficients(r); defaults(); }
}
