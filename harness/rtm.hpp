// Runtime-monitoring support shared by all harnesses: case loop, seeded
// random numbers, violation/evidence reporting, and the traced functor that
// is the observation boundary between the library and its user.
#ifndef RTM_HPP
#define RTM_HPP

#include "rehuel.hpp"
#include "test_equations.hpp"

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/time.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

namespace rtm {

typedef arma::vec vec;
typedef arma::mat mat;

// ---------------------------------------------------------------- random --
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double u(double a, double b) { return a + (b - a) * u(); }
	double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
	double n() { return std::sqrt(-2 * std::log(1 - u())) * std::cos(6.283185307179586 * u()); }
	int i(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
	bool b(double p = 0.5) { return u() < p; }
	vec v(int n_, double a = -1, double b_ = 1) { vec x(n_); for (int k = 0; k < n_; ++k) x(k) = u(a, b_); return x; }
	mat m(int r, int c) { mat x(r, c); for (int k = 0; k < r * c; ++k) x(k) = u(-1, 1); return x; }
	template <typename T> const T &pick(const std::vector<T> &x) { return x[next() % x.size()]; }
};

// ------------------------------------------------------------- reporting --
inline std::string esc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
inline std::string str(double x) { char b[40]; std::snprintf(b, 40, "%.17g", x); return b; }
inline std::string str(const vec &x)
{
	std::string o = "(";
	for (arma::uword k = 0; k < x.n_elem && k < 12; ++k) { if (k) o += ", "; o += str(x(k)); }
	return o + ")";
}
// cat("x=", 1.0, " v=", vec) -> string
inline void cat_to(std::ostringstream &) {}
template <typename T> void cat_one(std::ostringstream &o, const T &t) { o << t; }
inline void cat_one(std::ostringstream &o, double t) { o << str(t); }
inline void cat_one(std::ostringstream &o, const vec &t) { o << str(t); }
template <typename T, typename... R> void cat_to(std::ostringstream &o, const T &t, const R &... r) { cat_one(o, t); cat_to(o, r...); }
template <typename... R> std::string cat(const R &... r) { std::ostringstream o; cat_to(o, r...); return o.str(); }

inline uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

struct Report {
	FILE *out = nullptr;
	long current = -1;
	std::map<std::string, long> counts;      // events observed by the monitors
	std::map<std::string, int> viol_seen;    // per key
	std::set<uint64_t> sigs;                 // distinct non-trivial cases
	std::vector<std::string> samples;
	std::string context;                     // what the code under test is doing
	long cases = 0;
	void violation(const std::string &key, const std::string &detail)
	{
		if (viol_seen[key]++ >= 3) return;
		std::fprintf(out, "{\"type\":\"violation\",\"case\":%ld,\"key\":\"%s\",\"detail\":\"%s\"}\n",
		             current, esc(key).c_str(), esc(detail.substr(0, 3000)).c_str());
		std::fflush(out);
	}
	void count(const std::string &k, long n = 1) { counts[k] += n; }
	void nontrivial(const std::string &sig) { sigs.insert(hash_str(sig)); }
	void sample(const std::string &s) { if (samples.size() < 2) samples.push_back(s.substr(0, 700)); }
};
inline Report &rep() { static Report r; return r; }

// An oracle clause: cond must hold.
#define RTM_CHECK(cond, key, detail) \
	do { if (!(cond)) rtm::rep().violation((key), (detail)); } while (0)

// ------------------------------------------------------------ null stream --
struct nullbuf : std::streambuf {
	int overflow(int c) { return traits_type::not_eof(c); }
	std::streamsize xsputn(const char *, std::streamsize n) { return n; }
};

// --------------------------------------------------------------- problems --
struct Problem {
	std::string name;
	int dim = 1;
	double t0 = 0, t1 = 1;
	vec y0;
	std::function<vec(double, const vec &)> f;
	std::function<mat(double, const vec &)> J;
	std::function<vec(double)> exact;        // empty if unknown
	std::vector<vec> invariants;             // w with w.f(t,y) == 0
	bool stiff = false;
	bool linear = false;
	double lip = 1;                          // rough Lipschitz constant
};

// ---------------------------------------------------------- traced functor --
struct BudgetExceeded { long n; };
struct InjectedThrow { int tag; };

struct Event { char kind; double t; vec y; };

struct Trace {
	bool log = false;
	std::vector<Event> ev;
	long nfun = 0, njac = 0;
	long budget = 4000000;
	double tmin = 1e300, tmax = -1e300;
	long bad_dim = 0, nonfinite_arg = 0;
	// fault plan: indices (0-based) of fun/jac calls that misbehave
	std::function<int(char kind, long idx)> fault; // 0 none,1 nan,2 +inf,3 throw,4 -inf
	long faults_hit = 0;
	void reset() { ev.clear(); nfun = njac = 0; tmin = 1e300; tmax = -1e300; bad_dim = nonfinite_arg = faults_hit = 0; }
};

// The one functor type every template in the library is instantiated with.
struct Fun {
	typedef arma::mat jac_type;
	const Problem *p;
	Trace *tr;
	Fun(const Problem &pp, Trace &t) : p(&pp), tr(&t) {}
	void see(char kind, double t, const vec &y)
	{
		if (tr->nfun + tr->njac > tr->budget) throw BudgetExceeded{tr->budget};
		if (t < tr->tmin) tr->tmin = t;
		if (t > tr->tmax) tr->tmax = t;
		if (t != t) tr->nonfinite_arg++;
		if ((int)y.n_elem != p->dim) { tr->bad_dim++; throw std::length_error("RHS called with a wrong dimension"); }
		if (tr->log) tr->ev.push_back(Event{kind, t, y});
	}
	vec fun(double t, const vec &y)
	{
		see('f', t, y);
		int k = tr->fault ? tr->fault('f', tr->nfun) : 0;
		++tr->nfun;
		if (k) { ++tr->faults_hit; if (k == 3) throw InjectedThrow{42}; }
		vec r = p->f(t, y);
		if (k == 1) r(tr->nfun % r.n_elem) = std::nan("");
		if (k == 2) r.fill(HUGE_VAL);
		if (k == 4) r(0) = -HUGE_VAL;
		return r;
	}
	mat jac(double t, const vec &y)
	{
		see('j', t, y);
		int k = tr->fault ? tr->fault('j', tr->njac) : 0;
		++tr->njac;
		if (k) { ++tr->faults_hit; if (k == 3) throw InjectedThrow{43}; }
		mat r = p->J(t, y);
		if (k == 1) r(0, 0) = std::nan("");
		if (k == 2) r.fill(HUGE_VAL);
		if (k == 4) r(0, 0) = -HUGE_VAL;
		return r;
	}
};

// ------------------------------------------------------------------- main --
struct Options {
	uint64_t seed = 1;
	bool thorough = false;
	int shard = 0, nshards = 1;
	long only = -1, start = 0, caselimit = 60, deadline = 0;
	std::string out = "/dev/stdout", progress, extra;
};
inline Options &opt() { static Options o; return o; }
inline bool thorough() { return opt().thorough; }
inline void on_case_limit(int) { ::_exit(95); } // read by run_check.py as a hang

} // namespace rtm

// Each harness defines these two.
long n_cases(bool thorough);
void run_case(long id, rtm::Rng &rng);

#ifndef RTM_NO_MAIN
int main(int argc, char **argv)
{
	using namespace rtm;
	Options &o = opt();
	bool quiet = true;
	for (int k = 1; k + 1 < argc; k += 2) {
		std::string a = argv[k], v = argv[k + 1];
		if (a == "--seed") o.seed = std::strtoull(v.c_str(), 0, 10);
		else if (a == "--tier") o.thorough = v == "thorough";
		else if (a == "--shard") o.shard = std::atoi(v.c_str());
		else if (a == "--nshards") o.nshards = std::atoi(v.c_str());
		else if (a == "--case") o.only = std::atol(v.c_str());
		else if (a == "--start") o.start = std::atol(v.c_str());
		else if (a == "--caselimit") o.caselimit = std::atol(v.c_str());
		else if (a == "--deadline") o.deadline = std::atol(v.c_str());
		else if (a == "--out") o.out = v;
		else if (a == "--progress") o.progress = v;
		else if (a == "--extra") o.extra = v;
		else if (a == "--verbose") quiet = v == "0";
	}
	Report &r = rep();
	r.out = std::fopen(o.out.c_str(), "a");
	if (!r.out) return 97;
	nullbuf *nb = new nullbuf; // never destroyed: the streams are flushed at exit
	if (quiet) { std::cout.rdbuf(nb); std::cerr.rdbuf(nb); std::clog.rdbuf(nb); }
	int pfd = o.progress.empty() ? -1 : ::open(o.progress.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	long N = n_cases(o.thorough);
	std::signal(SIGPROF, on_case_limit);
	auto begin = std::chrono::steady_clock::now();
	bool cut = false;
	for (long id = o.start; id < N; ++id) {
		if (o.only >= 0 ? id != o.only : (id % o.nshards) != o.shard) continue;
		if (pfd >= 0) { char b[32]; int n = std::snprintf(b, 32, "%-20ld", id); if (::pwrite(pfd, b, n, 0) != n) return 97; }
		if (o.deadline > 0 && std::chrono::steady_clock::now() - begin > std::chrono::seconds(o.deadline)) { cut = true; break; }
		// CPU time, so a busy machine cannot trip it.
		struct itimerval lim = {{0, 0}, {o.caselimit, 0}};
		::setitimer(ITIMER_PROF, &lim, nullptr);
		r.current = id;
		r.context.clear();
		Rng rng(o.seed * 1000003ull + uint64_t(id) * 7919ull + 17);
		++r.cases;
		try {
			run_case(id, rng);
		} catch (const BudgetExceeded &e) {
			r.violation("no-termination", cat("more than ", e.n, " right-hand side evaluations in one case; last run: ", r.context));
		} catch (const InjectedThrow &) {
			r.violation("unexpected-exception", "an injected exception escaped the case");
		} catch (const std::exception &e) {
			r.violation("unexpected-exception", cat(e.what(), "; last run: ", r.context));
		}
	}
	std::fprintf(r.out, "{\"type\":\"summary\",\"n_cases\":%ld,\"cases\":%ld,\"cut\":%d,\"counts\":{", N, r.cases, int(cut));
	bool first = true;
	for (auto &c : r.counts) { std::fprintf(r.out, "%s\"%s\":%ld", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
	std::fprintf(r.out, "},\"sigs\":[");
	first = true;
	for (auto &s : r.sigs) { std::fprintf(r.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
	std::fprintf(r.out, "],\"samples\":[");
	first = true;
	for (auto &s : r.samples) { std::fprintf(r.out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
	std::fprintf(r.out, "]}\n");
	std::fclose(r.out);
	return 0;
}
#endif

#endif // RTM_HPP
