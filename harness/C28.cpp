// C28: the example program integrates what its options say.
// --extra names the program, built from the tree with ASan and UBSan and with
// variables that are never initialised filled with a pattern.
#include "common.hpp"
#include "test_equations.hpp"
#include <dirent.h>
#include <sys/wait.h>
#include <fstream>
#include <memory>
using namespace rtm;
namespace te = test_equations;

long n_cases(bool th) { return th ? 12000 : 800; }

static std::string slurp(const std::string &f)
{
	std::ifstream in(f);
	return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

struct Scratch {
	std::string d;
	Scratch() { char t[] = "example-XXXXXX"; if (!::mkdtemp(t)) throw std::runtime_error("no scratch directory"); d = t; }
	~Scratch()
	{
		if (DIR *h = ::opendir(d.c_str())) { while (dirent *e = ::readdir(h)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") ::unlink((d + "/" + e->d_name).c_str()); ::closedir(h); }
		::rmdir(d.c_str());
	}
};

struct Ran { int rc; std::string out, err; bool crash; };
static Ran run_program(const std::string &dir, const std::string &args, const std::string &input)
{
	{ std::ofstream(dir + "/in") << input; }
	int rc = std::system(("cd " + dir + " && timeout 60 '" + opt().extra + "' " + args + " < in > out 2> err").c_str());
	Ran r;
	r.rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : 128;
	r.out = slurp(dir + "/out"); r.err = slurp(dir + "/err");
	r.crash = r.rc == 99 || r.rc == 124 || (r.rc >= 128 && r.rc < 255) || r.err.find("runtime error:") != std::string::npos || r.err.find("Sanitizer") != std::string::npos;
	return r;
}

typedef std::vector<long double> V;
typedef std::function<vec(const vec &)> Rhs;

// Advances y from a to b by the extrapolated midpoint rule.
static void advance(const Rhs &f, vec &y, double a, double b, double lip)
{
	int n = std::max(2, (int)std::ceil(8 * lip * (b - a)));
	for (int k = 0; k < n; ++k) {
		double H = (b - a) / n;
		std::vector<vec> T;
		for (int j = 1; j <= 6; ++j) {
			int m = 2 * j; double h = H / m;
			vec z0 = y, z1 = y + h * f(y);
			for (int i = 1; i < m; ++i) { vec z2 = z0 + 2 * h * f(z1); z0 = z1; z1 = z2; }
			T.push_back((z0 + z1 + h * f(z1)) / 2);
			for (int i = j - 2; i >= 0; --i) { double q = double(j) / (i + 1); T[i] = T[i + 1] + (T[i + 1] - T[i]) / (q * q - 1); }
		}
		y = T[0];
	}
}

void run_case(long id, Rng &r)
{
	Scratch s;
	if (id % 8 == 0) { // orders the program must refuse
		int what = (id / 8) % 12;
		static const char *opts[] = {"--equation", "--method", "--time-span", "--dt", "--rel-tol", "--abs-tol", "--out-interval", "--time-internals", "--output-file"};
		std::string args, key;
		const Method &m = r.pick(all_methods());
		switch (what) {
		case 0: args = ""; key = "no-options"; break;
		case 1: args = cat("--equation ", r.pick(std::vector<std::string>{"exponentia", "Lorenz", "lorenz2", "''", "0", "three body", "robertsonn"}), " --time-internals 0"); key = "equation"; break;
		case 2: {
			std::string n = m.name;
			switch (r.i(0, 3)) { case 0: n += "X"; break; case 1: n.resize(r.i(0, n.size() - 1)); break; case 2: for (auto &c : n) c = std::tolower(c); break; default: n = "BDF"; }
			if (erk::name_to_method(n) || irk::name_to_method(n)) return;
			args = "--equation stiff-equation --time-internals 0 --method '" + n + "'"; key = "method"; break; }
		case 3: args = cat(r.pick(std::vector<std::string>{"--equations", "-x", "lorenz", "--Method", "--", "--t1", "--hel"}), " 1"); key = "option"; break;
		case 4: args = cat("--equation lorenz --time-internals ", r.pick(std::vector<int>{2, -1, 7, 100})); key = "time-internals"; break;
		default: {
			int o = r.i(0, 8);
			if (id == 40) o = 6;
			if (o == 2 && r.b()) args = "--time-span 1"; else args = opts[o];
			if (r.b()) args = "--equation stiff-equation " + args;
			key = cat("missing-value/", opts[o]); break; }
		}
		std::string d = args;
		rep().context = d;
		Ran p = run_program(s.d, args, "1 1 1 1");
		RTM_CHECK(p.rc != 0 && !p.err.empty(), cat("accepted/", key), cat(d, ": status ", p.rc, " ", p.err.substr(0, 500)));
		RTM_CHECK(!p.crash, cat("crash/", key), cat(d, ": status ", p.rc, " ", p.err.substr(0, 800)));
		RTM_CHECK(p.err.find("ntegrating over interval") == std::string::npos && p.out.find("ntegrating over interval") == std::string::npos, cat("integrated/", key), d);
		rep().count("refused"); rep().nontrivial(d);
		return;
	}
	if (id % 50 == 1) { // what is not given is not read
		Ran p = run_program(s.d, "--equation stiff-equation --method RADAU_IIA_53 --time-span 0 1", "");
		RTM_CHECK(!p.crash, "uninitialised/time_internals", p.err.substr(0, 800));
		p = run_program(s.d, r.b() ? "--help" : "-h", "");
		RTM_CHECK(p.rc == 0 && p.err.find("Usage") != std::string::npos && !p.crash, "help", p.err.substr(0, 300));
		rep().count("defaults");
		return;
	}
	const Method &m = all_methods()[id % all_methods().size()];
	bool low = !m.order2; // constant steps
	std::string eq, in;
	double t0 = r.b(0.5) ? 0 : std::floor(r.u(-5, 5) * 8) / 8, span, lip;
	vec y;
	std::shared_ptr<functor> F;
	switch (r.i(0, 6)) {
	case 0: { double l = r.u(-2, 1.5); eq = "exponential"; in = cat(l); F.reset(new te::exponential(l)); y = {1}; lip = std::fabs(l) + 0.3; span = r.u(0.2, 3); break; }
	case 1: { eq = "stiff-equation"; F.reset(new te::stiff_eq); y = {1, 1}; lip = 1001; span = r.u(0.05, 0.5); break; }
	case 2: { eq = "robertson"; in = r.pick(std::vector<std::string>{"y", "Y", "yes", "Yes"}); F.reset(new te::rober); y = {1, 0, 0}; lip = 3000; span = r.u(0.01, 0.2); break; }
	case 3: { double a[3]; for (auto &x : a) x = r.logu(0.3, 3); eq = "three-body"; in = cat(a[0], " ", a[1], "\n", a[2]); F.reset(new te::three_body(a[0], a[1], a[2])); y = {1, 0, 3, 2, 0, 3, 0, 2, -1, 0, -1, 0}; lip = 4; span = r.u(0.1, 0.5); break; }
	case 4: { double mu = r.logu(0.2, 3); eq = "van-der-pol"; in = cat(mu); F.reset(new te::vdpol(mu)); y = {2, 0}; lip = 4 / mu + 1; span = r.u(0.2, 2); break; }
	case 5: { double a = r.u(0.5, 1.5), b = r.u(1, 3); eq = "brusselator"; in = cat(a, " ", b); F.reset(new te::bruss(a, b)); y = {2.5, 2.5}; lip = 15; span = r.u(0.2, 2); break; }
	default: { double rho = r.u(0.5, 28), sg = r.u(1, 10), be = r.u(0.5, 3); eq = "lorenz"; in = cat(rho, " ", sg, " ", be); F.reset(new te::lorenz(sg, rho, be)); y = {1, 1, 1}; lip = 30; span = r.u(0.1, 0.8); break; }
	}
	bool stiff = lip > 500;
	if (stiff && low && !m.implicit) span = std::min(span, 0.05);
	span = std::ceil(span * 256) / 256; // numbers that single precision holds, as the program reads them
	double t1 = t0 + span, dt = low ? span / 2048 : std::ldexp(1.0, r.i(-12, -4)) * span;
	if (low) { dt = std::ldexp(1.0, std::ilogb(span / 1500)); if (stiff) dt = std::min(dt, std::ldexp(1.0, -12)); }
	double rtol = std::ldexp(1.0, -r.i(14, 23)), atol = rtol * r.pick(std::vector<double>{0.125, 1, 4});
	if (m.order2 && m.order2 <= 2) rtol = std::max(rtol, std::ldexp(1.0, -17)), atol = std::max(atol, rtol);
	bool given = r.b(0.8) || eq == "robertson", dtgiven = low || r.b(0.8), timed = r.b(0.3), file = r.b(0.93);
	int every = r.b(0.2) ? r.i(1, 40) : 0;
	if (eq == "robertson") atol = std::ldexp(1.0, -24); // below the tiny second component
	if (!given) rtol = 1e-5, atol = 1e-4;
	if (!dtgiven) dt = 1e-2;
	std::vector<std::string> parts = {"--equation " + eq, cat("--method ", m.name), cat("--time-span ", t0, " ", t1), cat("--time-internals ", int(timed))};
	char buf[80];
	if (given) { std::snprintf(buf, sizeof buf, "--rel-tol %.9g", rtol); parts.push_back(buf); std::snprintf(buf, sizeof buf, "--abs-tol %.9g", atol); parts.push_back(buf); }
	if (dtgiven) { std::snprintf(buf, sizeof buf, "--dt %.9g", dt); parts.push_back(buf); }
	if (every) parts.push_back(cat("--out-interval ", every));
	if (file) parts.push_back("--output-file table");
	std::string args;
	while (!parts.empty()) { int k = r.i(0, parts.size() - 1); args += parts[k] + " "; parts.erase(parts.begin() + k); }
	std::string d = args + "< " + in;
	rep().context = d;
	Ran p = run_program(s.d, args, in + "\n");
	RTM_CHECK(!p.crash, "crash/run", cat(d, ": status ", p.rc, " ", p.err.substr(0, 1200)));
	RTM_CHECK(p.rc == 0, cat("failed/", eq), cat(d, ": status ", p.rc, " ", p.err.substr(0, 1200)));
	rep().count("runs");
	RTM_CHECK(p.err.find("function evaluations") != std::string::npos && (p.err.find("Jacobi matrix evaluations") != std::string::npos) == m.implicit, "performance", cat(d, ": ", p.err));
	RTM_CHECK((p.out + p.err).find(m.name) != std::string::npos, "method-name", cat(d, ": ", p.out));
	if (eq == "robertson") { // only if told so
		Ran q = run_program(s.d, "--equation robertson --time-internals 0 --output-file no", r.pick(std::vector<std::string>{"n\n", "", "N\n", "no\n", "\n"}));
		RTM_CHECK(q.rc != 0 && !std::ifstream(s.d + "/no"), "unconfirmed", q.err);
		rep().count("unconfirmed");
	}
	RTM_CHECK((bool)std::ifstream(s.d + "/table") == file, "output-file", d);
	if (!file || p.rc) return;
	std::ifstream tab(s.d + "/table");
	std::string line;
	double tp = t0, tl = t0; long rows = 0;
	Rhs f = [&](const vec &x) { return F->fun(0, x); };
	double worst = 0;
	vec got, ref = y;
	std::vector<std::pair<double, vec>> R;
	while (std::getline(tab, line)) {
		std::istringstream ls(line);
		double t, v; std::vector<double> w;
		RTM_CHECK((bool)(ls >> t), "format", cat(d, ": '", line, "'"));
		while (ls >> v) w.push_back(v);
		RTM_CHECK(ls.eof() && w.size() == y.n_elem, "format", cat(d, ": '", line, "'"));
		if (w.size() != y.n_elem) return;
		RTM_CHECK(t >= tp - 1e-5 * std::fabs(t), "order", cat(d, ": ", t, " after ", tp));
		RTM_CHECK(t <= t1 + 1e-5 * std::fabs(t1), "beyond-t1", cat(d, ": ", t));
		tp = t; ++rows;
		R.emplace_back(t, vec(w));
	}
	RTM_CHECK(rows > 0 && std::fabs(tp - t1) <= 1e-5 * (std::fabs(t1) + 1e-3), "last-row", cat(d, ": ", rows, " rows, the last at ", tp));
	if (low) RTM_CHECK(std::fabs(rows - span / dt) < 1.5, "constant-steps", cat(d, ": ", rows, " rows instead of ", span / dt));
	if (!rows) return;
	double growth = std::exp(std::min(6.0, stiff ? 1.0 : lip * span * 0.5));
	std::size_t skip = std::max<std::size_t>(1, rows / 25);
	for (std::size_t k = 0; k < R.size(); ++k) {
		if (k % skip && k + 1 < R.size()) continue;
		double t = k + 1 == R.size() ? t1 : R[k].first;
		if (t <= tl) continue;
		advance(f, ref, tl, t, lip); tl = t;
		double big = 1 + arma::norm(ref, "inf"), e = arma::norm(ref - R[k].second, "inf");
		double tol = 100 * growth * (atol + rtol * big) + 1e-5 * big + 8e-6 * (std::fabs(t) + 1e-3) * arma::norm(f(ref), "inf");
		if (low) tol = 1e-5 * big + 20 * growth * big * (stiff ? 0.05 : std::pow(std::min(lip, 10.0) * dt, m.order) + 1e-5) + 8e-6 * std::fabs(t) * arma::norm(f(ref), "inf");
		worst = std::max(worst, e / tol);
		if (!(e <= tol)) { rep().violation(cat("trajectory/", eq), cat(d, ": at ", R[k].first, " ", R[k].second, " instead of ", ref, ", tolerance ", tol)); break; }
		rep().count("rows-compared");
	}
	rep().count(cat("equation/", eq));
	if (worst > 0.1) rep().count("close-calls");
	rep().nontrivial(d); rep().sample(cat(d, " -> ", rows, " rows"));
}
