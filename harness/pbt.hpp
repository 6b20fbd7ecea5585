// pbt.hpp - small property-based-testing engine used by every harness in /verif.
//
// A case is a function of a *choice sequence*: every random decision is one bounded integer drawn
// from Gen::below().  Random search draws the integers from a PRNG seeded by (VERIF_SEED, property,
// case number); shrinking edits the recorded integers and re-runs; a replay file stores them.
// Cases run in forked workers, so an assertion failure, sanitizer report, uncaught exception or hang of
// the code under test is an ordinary failing case that shrinks and replays like any other.
#pragma once
#include <cassert>
#include <array>
#include <deque>
#include <iterator>
#include <memory>
#include <optional>
#include <variant>
#include <any>
#include <numeric>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace pbt
{
	struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
	// thrown when the generated input is outside the property's domain
	struct Discard {};

	inline uint64_t mix(uint64_t x)
	{
		x += 0x9E3779B97F4A7C15ull;
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
		x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
		return x ^ (x >> 31);
	}
	inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ull)
	{
		for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
		return h;
	}
	inline double now()
	{
		timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + t.tv_nsec * 1e-9;
	}

	constexpr size_t MAXC = 1 << 18;
	constexpr size_t NLABEL = 96;
	constexpr size_t NSAMPLE = 6;
	constexpr size_t SAMPLELEN = 1500;

	struct Shm // one per worker
	{
		volatile uint64_t case_no;
		volatile uint64_t heartbeat;
		volatile double slowest;
		volatile uint64_t evaluated, discarded, nontrivial;
		volatile int status;               // 0 running, 1 finished, 2 failed
		volatile uint32_t nsample, nlabel;
		volatile uint32_t n;               // choices recorded
		char message[8192];
		char label[NLABEL][56];
		uint64_t label_n[NLABEL];
		char sample[NSAMPLE][SAMPLELEN];
		uint32_t choices[MAXC];
	};

	class Gen
	{
	public:
		Shm* sh = nullptr;
		bool replay = false;
		bool verbose = false;
		std::vector<uint32_t> script;
		uint64_t rng = 0;
		std::ostringstream notes;
		bool nontrivial_ = false;
		uint64_t fp = 1469598103934665603ull;
		int size = 100;                    // soft size knob of this case (set by the engine, part of the seed)

		uint32_t raw() { rng += 0x9E3779B97F4A7C15ull; return static_cast<uint32_t>(mix(rng) >> 32); }
		// uniform integer in [0, n)
		uint32_t below(uint32_t n)
		{
			uint32_t v;
			if (n <= 1) v = 0;
			else if (replay) v = pos_ < script.size() ? script[pos_] : 0;
			else v = raw();
			if (n > 1 && v >= n) v %= n;
			if (n > 1)
			{
				++pos_;
				if (pos_ > MAXC) throw Discard{};
				sh->choices[pos_ - 1] = v;
				sh->n = static_cast<uint32_t>(pos_);
			}
			fp = (fp ^ v) * 1099511628211ull;
			fp ^= fp >> 29;
			return v;
		}
		uint32_t in(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
		uint64_t u64() { uint64_t h = below(0xFFFFFFFFu); return h << 32 | below(0xFFFFFFFFu); }
		// true with probability num/den; shrinks towards false
		bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
		// length with a skewed distribution: mostly short, sometimes long; shrinks to lo
		uint32_t len(uint32_t lo, uint32_t hi)
		{
			if (hi <= lo) return lo;
			uint32_t span = hi - lo, k = below(4);
			uint32_t m = k == 0 ? std::min(span, 4u) : k == 1 ? std::min(span, 12u) : k == 2 ? std::min(span, 40u) : span;
			return lo + below(m + 1);
		}
		// len() with a rare long tail
		uint32_t wide(uint32_t lo, uint32_t hi, uint32_t huge, uint32_t one_in)
		{
			if (below(one_in) + 1 != one_in) return len(lo, hi);
			label("long"); return lo + below(huge - lo + 1);
		}
		template <class C> auto const& pick(C const& c) { return c[below(static_cast<uint32_t>(c.size()))]; }
		template <class T, size_t N> T const& pick(T const (&c)[N]) { return c[below(N)]; }
		template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(static_cast<uint32_t>(l.size()))); }
		// weighted alternative: index with probability w[i]/sum
		uint32_t weighted(std::initializer_list<uint32_t> w)
		{
			uint32_t s = 0; for (auto x : w) s += x;
			uint32_t r = below(s), i = 0;
			for (auto x : w) { if (r < x) return i; r -= x; ++i; }
			return i - 1;
		}
		void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
		void label(char const* s)
		{
			uint32_t k = sh->nlabel;
			for (uint32_t i = 0; i < k; ++i) if (std::strncmp(sh->label[i], s, 55) == 0) { ++sh->label_n[i]; return; }
			if (k < NLABEL) { std::strncpy(sh->label[k], s, 55); sh->label_n[k] = 1; sh->nlabel = k + 1; }
		}
		void label(std::string const& s) { label(s.c_str()); }
		template <class... A> void note(A const&... a) { if (verbose) { ((notes << a), ...); notes << '\n'; } }
	private:
		size_t pos_ = 0;
	};

	template <class... A> [[noreturn]] inline void fail(A const&... a)
	{
		std::ostringstream o; ((o << a), ...);
		throw Fail(o.str());
	}
	template <class... A> inline void check(bool ok, A const&... a) { if (!ok) fail(a...); }

	// ---- printing -------------------------------------------------------------------------------
	inline std::string show_byte(uint32_t c)
	{
		char b[16];
		if (c == '\\') return "\\\\";
		if (c == '\n') return "\\n";
		if (c == '\r') return "\\r";
		if (c == '\t') return "\\t";
		if (c == '"') return "\\\"";
		if (0x20 <= c && c < 0x7F) return std::string(1, static_cast<char>(c));
		if (c < 0x100) std::snprintf(b, 16, "\\x%02X", c); else std::snprintf(b, 16, "\\u{%X}", c);
		return b;
	}
	template <class S> inline std::string show(S const& s)
	{
		std::string r = "\"";
		for (auto c : s) r += show_byte(static_cast<uint32_t>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<std::remove_cvref_t<decltype(c)>, char32_t>, uint32_t, std::conditional_t<std::is_same_v<std::remove_cvref_t<decltype(c)>, char16_t>, uint16_t, std::conditional_t<std::is_same_v<std::remove_cvref_t<decltype(c)>, char8_t>, uint8_t, std::remove_cvref_t<decltype(c)>>>>>>(c)));
		return r + "\"";
	}
	inline std::string hex(std::string_view s)
	{
		std::string r; char b[4];
		for (unsigned char c : s) { std::snprintf(b, 4, "%02X ", c); r += b; }
		return r;
	}

	// ---- properties -----------------------------------------------------------------------------
	struct Prop
	{
		char const* id;
		char const* rule;                   // when a case counts as non-trivial
		uint64_t quick, thorough;           // number of cases
		std::function<void(Gen&)> run;
		double hang = 20;                   // seconds one case may take
		// deterministic sub-checks run once before the search; each is a name and a function
		std::vector<std::pair<char const*, std::function<void()>>> fixed = {};
		char const* note = "";              // text for evidence (exhaustive parts etc.)
	};
	inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
	struct Reg { Reg(Prop p) { props().push_back(std::move(p)); } };

	inline std::string jstr(std::string_view s)
	{
		std::string r = "\""; char b[8];
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
			else if (c == '\n') r += "\\n";
			else if (c < 0x20 || c >= 0x7F) { std::snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r + "\"";
	}

	// runs one case in this process; returns "" on success
	inline std::string run_one(Prop const& p, Gen& g, bool& discarded)
	{
		discarded = false;
		try { p.run(g); }
		catch (Fail const& e) { return std::string("FAIL: ") + e.what(); }
		catch (Discard const&) { discarded = true; }
		catch (std::exception const& e) { return std::string("FAIL: uncaught exception ") + typeid(e).name() + ": " + e.what(); }
		return "";
	}

	inline void quiet_stderr(char const* path)
	{
		int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
	}

	// the limit on one case is processor time, so that a loaded machine does not look like a hang
	inline void cpu_limit(double s)
	{
		itimerval t{}; t.it_value.tv_sec = static_cast<time_t>(s); t.it_value.tv_usec = static_cast<suseconds_t>((s - static_cast<double>(t.it_value.tv_sec)) * 1e6);
		setitimer(ITIMER_PROF, &t, nullptr);
	}

	// one scripted run in a child; returns failure message or ""
	inline std::string run_script(Prop const& p, Shm* sh, std::vector<uint32_t> const& script, std::vector<uint32_t>* used, std::string* notes, std::string const& errfile, double hang)
	{
		sh->status = 0; sh->n = 0; sh->message[0] = 0;
		int pfd[2]; if (notes && pipe(pfd) != 0) std::abort();
		pid_t pid = fork();
		if (pid == 0)
		{
			if (notes) close(pfd[0]);
			quiet_stderr(errfile.empty() ? "/dev/null" : errfile.c_str());
			rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			Gen g; g.sh = sh; g.replay = true; g.script = script; g.verbose = notes != nullptr;
			struct Flush { Gen& g; int fd; };
			bool d; std::string m;
			if (notes)
			{
				// keep the notes even when the case crashes: stream them through a pipe as they grow
				static Gen* gp; static int fd; gp = &g; fd = pfd[1];
				auto dump = [](int sig) { std::string s = gp->notes.str(); if (s.size() > 60000) s.resize(60000); (void)!write(fd, s.data(), s.size()); signal(sig, SIG_DFL); raise(sig); };
				signal(SIGABRT, dump); signal(SIGSEGV, dump); signal(SIGFPE, dump); signal(SIGILL, dump); signal(SIGPROF, dump); signal(SIGBUS, dump);
			}
			cpu_limit(hang);
			m = run_one(p, g, d);
			cpu_limit(0);
			if (notes) { std::string s = g.notes.str(); if (s.size() > 60000) s.resize(60000); (void)!write(pfd[1], s.data(), s.size()); }
			if (!m.empty()) { std::strncpy(sh->message, m.c_str(), sizeof sh->message - 1); sh->status = 2; }
			else sh->status = 1;
			_exit(0);
		}
		double t0 = now(); int st = 0; bool hung = false;
		if (notes)
		{
			close(pfd[1]); char b[65536]; ssize_t k; notes->clear();
			while ((k = read(pfd[0], b, sizeof b)) > 0) notes->append(b, static_cast<size_t>(k));
			close(pfd[0]);
		}
		for (int spin = 0;; ++spin)
		{
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (now() - t0 > hang * 10 + 30) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
			usleep(spin < 50 ? 100 : 1000);
		}
		if (used) used->assign(sh->choices, sh->choices + std::min<size_t>(sh->n, MAXC));
		if (hung || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)) return "HANG: case did not finish";
		if (sh->status == 2) return sh->message;
		if (sh->status == 1) return "";
		if (WIFSIGNALED(st)) return std::string("CRASH: signal ") + strsignal(WTERMSIG(st));
		return "CRASH: exit status " + std::to_string(WEXITSTATUS(st));
	}

	inline char const* kind(std::string const& m) { return m.rfind("FAIL", 0) == 0 ? "FAIL" : m.rfind("HANG", 0) == 0 ? "HANG" : "CRASH"; }

	inline void shrink(Prop const& p, Shm* sh, std::vector<uint32_t>& best, std::string& msg, double budget, double hang)
	{
		double end = now() + budget;
		auto attempt = [&](std::vector<uint32_t> const& c) -> bool
		{
			if (now() > end) return false;
			std::vector<uint32_t> used;
			std::string m = run_script(p, sh, c, &used, nullptr, "", hang);
			if (m.empty()) return false;
			if (used.size() > c.size()) used.resize(c.size());
			// accept only if shortlex smaller
			if (used.size() > best.size()) return false;
			if (used.size() == best.size() && !(used < best)) return false;
			best = used; msg = m; return true;
		};
		{ // normalise: choices actually used
			std::vector<uint32_t> used; std::string m = run_script(p, sh, best, &used, nullptr, "", hang);
			if (!m.empty() && used.size() <= best.size()) best = used;
		}
		bool progress = true;
		while (progress && now() < end)
		{
			progress = false;
			for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && now() < end; k = k > 16 ? k / 2 : k - 1)
			{
				for (size_t i = best.size() >= k ? best.size() - k + 1 : 0; i-- > 0 && now() < end;)
				{
					if (i + k > best.size()) continue;
					auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
					if (attempt(c)) progress = true;
					else if (i > 0 && c.size() >= i && c[i - 1] > 0)
					{ // deleting an element often needs its length choice lowered too
						--c[i - 1];
						if (attempt(c)) progress = true;
					}
				}
				if (k == 1) break;
			}
			for (size_t k : { 16, 8, 4, 2, 1 })
				for (size_t i = 0; i + k <= best.size() && now() < end; ++i)
				{
					auto c = best; bool any = false;
					for (size_t j = 0; j < k; ++j) { any = any || c[i + j]; c[i + j] = 0; }
					if (any && attempt(c)) progress = true;
				}
			for (size_t i = 0; i < best.size() && now() < end; ++i)
			{
				uint32_t lo = 0;
				while (i < best.size() && lo < best[i] && now() < end)
				{
					uint32_t mid = lo + (best[i] - lo) / 2;
					auto c = best; c[i] = mid;
					uint32_t before = best[i];
					if (attempt(c)) { progress = true; if (i >= best.size() || best[i] >= before) break; }
					else { if (before - lo <= 1) break; lo = mid + 1; if (mid + 1 >= before) break; }
				}
			}
			// lower a length-like choice together with deleting one element anywhere later
			for (size_t i = 0; i < best.size() && i < 40 && now() < end; ++i)
				for (size_t j = i + 1; j < best.size() && j < i + 60 && now() < end; ++j)
				{
					if (i >= best.size() || best[i] == 0) break;
					for (size_t k = 1; k <= 4 && j + k <= best.size(); ++k)
					{
						auto c = best; --c[i]; c.erase(c.begin() + j, c.begin() + j + k);
						if (attempt(c)) { progress = true; break; }
					}
				}
		}
	}

	inline int write_replay(std::string const& path, Prop const& p, std::vector<uint32_t> const& c, std::string const& msg, std::string const& notes, std::string const& err, uint64_t seed)
	{
		std::ofstream o(path);
		o << "property " << p.id << "\nseed " << seed << "\nchoices";
		for (auto v : c) o << ' ' << v;
		o << "\nmessage " << msg << "\n--- input ---\n" << notes << "\n--- stderr ---\n" << err << "\n";
		return o.good() ? 0 : 1;
	}

	inline std::string slurp(std::string const& p, size_t max = 20000)
	{
		std::ifstream f(p); std::stringstream s; s << f.rdbuf(); std::string r = s.str();
		if (r.size() > max) r.resize(max);
		return r;
	}

	inline int main_(int argc, char** argv)
	{
		std::string id, out = ".", replay; uint64_t seed = 1, cases = 0; std::string tier = "quick"; int workers = 8; double cap = 0; bool list = false; uint64_t only = ~0ull;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop") id = val();
			else if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
			else if (a == "--tier") tier = val();
			else if (a == "--out") out = val();
			else if (a == "--replay") replay = val();
			else if (a == "--cases") cases = std::strtoull(val().c_str(), nullptr, 10);
			else if (a == "--workers") workers = std::atoi(val().c_str());
			else if (a == "--cap") cap = std::atof(val().c_str());
			else if (a == "--case") only = std::strtoull(val().c_str(), nullptr, 10);
			else if (a == "--list") list = true;
		}
		if (list) { for (auto& p : props()) std::printf("%s\n", p.id); return 0; }
		Prop const* p = nullptr;
		for (auto& q : props()) if (id == q.id) p = &q;
		auto mk = [](size_t n) { void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) std::abort(); return m; };
		if (!p) { std::fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
		Shm* tsh = static_cast<Shm*>(mk(sizeof(Shm)));
		if (!replay.empty())
		{
			std::ifstream f(replay); std::string line; std::vector<uint32_t> c; bool have = false;
			while (std::getline(f, line)) if (line.rfind("choices", 0) == 0) { std::istringstream s(line.substr(7)); uint32_t v; while (s >> v) c.push_back(v); have = true; break; }
			if (!have) { std::fprintf(stderr, "no choices in %s\n", replay.c_str()); return 3; }
			std::string notes, ef = replay + ".err";
			std::string m = run_script(*p, tsh, c, nullptr, &notes, ef, p->hang);
			std::printf("%s\n--- input ---\n%s\n--- stderr ---\n%s\n", m.empty() ? "PASS" : m.c_str(), notes.c_str(), slurp(ef).c_str());
			unlink(ef.c_str());
			return m.empty() ? 0 : 1;
		}
		bool thorough = tier == "thorough";
		if (cases == 0) cases = thorough ? p->thorough : p->quick;
		if (cap == 0) cap = thorough ? 3000 : 300;
		double t0 = now();
		std::string failmsg; std::vector<uint32_t> failing; bool fixed_failed = false; std::string fixed_name;
		// fixed sub-checks
		for (auto& fx : p->fixed)
		{
			Prop q = *p; auto f = fx.second; q.run = [f](Gen&) { f(); };
			std::string notes; std::string ef = out + "/" + p->id + ".fixed.err";
			for (int k = 0; k < 3; ++k) { failmsg = run_script(q, tsh, {}, nullptr, nullptr, ef, 200); if (failmsg.empty()) break; }
			std::string err = slurp(ef); unlink(ef.c_str());
			if (!failmsg.empty())
			{
				fixed_failed = true; fixed_name = fx.first;
				std::string path = out + "/" + p->id + ".replay";
				write_replay(path, *p, {}, "[" + fixed_name + "] " + failmsg, "", err, seed);
				std::printf("[%s] %s\n%s\nFAILED %s\n", fx.first, failmsg.c_str(), err.c_str(), path.c_str());
				return 1;
			}
		}
		std::vector<Shm*> sh; std::vector<uint64_t*> fps; std::vector<pid_t> pid(workers, 0); std::vector<uint64_t> lo(workers), hi(workers); std::vector<double> beat(workers, now()); std::vector<uint64_t> last(workers, ~0ull);
		uint64_t per = cases / workers + 1;
		for (int w = 0; w < workers; ++w) { sh.push_back(static_cast<Shm*>(mk(sizeof(Shm)))); fps.push_back(static_cast<uint64_t*>(mk(per * 8))); lo[w] = w * per; hi[w] = std::min<uint64_t>(cases, (w + 1) * per); }
		if (only != ~0ull) { workers = 1; lo[0] = only; hi[0] = only + 1; }
		uint64_t pseed = mix(seed * 1000003 + hash_str(p->id));
		auto child = [&](int w)
		{
			quiet_stderr("/dev/null");
			rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			Shm* s = sh[w];
			for (uint64_t c = lo[w]; c < hi[w]; ++c)
			{
				s->case_no = c; s->n = 0; ++s->heartbeat;
				Gen g; g.sh = s; g.rng = mix(pseed ^ mix(c)); g.verbose = s->nsample < NSAMPLE && c % 7 == 3;
				double b0 = now(); cpu_limit(p->hang);
				bool d; std::string m = run_one(*p, g, d);
				cpu_limit(0); if (double t = now() - b0; s->slowest < t) s->slowest = t;
				if (!m.empty()) { std::strncpy(s->message, m.c_str(), sizeof s->message - 1); s->status = 2; _exit(0); }
				if (d) { ++s->discarded; continue; }
				++s->evaluated;
				if (g.nontrivial_)
				{
					uint64_t k = s->nontrivial; if (k < per) fps[w][k] = g.fp; s->nontrivial = k + 1;
					if (g.verbose) { std::strncpy(s->sample[s->nsample], g.notes.str().c_str(), SAMPLELEN - 1); ++s->nsample; }
				}
			}
			s->status = 1; _exit(0);
		};
		for (int w = 0; w < workers; ++w) { sh[w]->status = 0; sh[w]->case_no = lo[w]; if ((pid[w] = fork()) == 0) child(w); }
		int live = workers; int failed_w = -1; bool capped = false; std::string how;
		while (live > 0)
		{
			bool any = false;
			for (int w = 0; w < workers; ++w)
			{
				if (!pid[w]) continue;
				int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
				if (r == pid[w])
				{
					any = true; pid[w] = 0; --live;
					if (sh[w]->status == 2) { if (failed_w < 0 || sh[w]->case_no < sh[failed_w]->case_no) { failed_w = w; how = sh[w]->message; } }
					else if (sh[w]->status == 0) { if (failed_w < 0 || sh[w]->case_no < sh[failed_w]->case_no) { failed_w = w; how = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "HANG" : "CRASH"; } }
				}
				else
				{
					if (sh[w]->heartbeat != last[w]) { last[w] = sh[w]->heartbeat; beat[w] = now(); }
					else if (now() - beat[w] > p->hang * 10 + 60) { kill(pid[w], SIGKILL); int st2; waitpid(pid[w], &st2, 0); pid[w] = 0; --live; any = true; if (failed_w < 0) { failed_w = w; how = "HANG"; } }
				}
			}
			if (failed_w >= 0 || now() - t0 > cap)
			{
				if (failed_w < 0) capped = true;
				for (int w = 0; w < workers; ++w) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = 0; --live; }
			}
			if (!any) usleep(2000);
		}
		int rc = 0;
		if (failed_w >= 0)
		{
			Shm* s = sh[failed_w];
			std::vector<uint32_t> c(s->choices, s->choices + std::min<size_t>(s->n, MAXC));
			uint64_t cn = s->case_no;
			std::string m;
			int confirmed = 0;
			for (int k = 0; k < 3; ++k) { std::string x = run_script(*p, tsh, c, nullptr, nullptr, "", p->hang); if (!x.empty()) { ++confirmed; m = x; } }
			if (confirmed == 3)
			{
				double hang = std::string(kind(m)) == "HANG" ? std::min(p->hang, 3.0) : p->hang;
				shrink(*p, tsh, c, m, thorough ? 120 : 30, hang);
				std::string notes, ef = out + "/" + p->id + ".err"; int ok = 0;
				for (int k = 0; k < 3; ++k) { std::string x = run_script(*p, tsh, c, nullptr, &notes, ef, p->hang); if (!x.empty()) { ++ok; m = x; } }
				std::string err = slurp(ef); unlink(ef.c_str());
				if (ok == 3)
				{
					std::string path = out + "/" + p->id + ".replay";
					write_replay(path, *p, c, m, notes, err, seed);
					std::printf("case %" PRIu64 " failed (%s)\n%s\n--- input ---\n%s\n--- stderr ---\n%s\nFAILED %s\n", cn, how.c_str(), m.c_str(), notes.c_str(), err.c_str(), path.c_str());
					rc = 1;
				}
				else std::printf("UNCONFIRMED after shrinking: %s\n", m.c_str());
			}
			else std::printf("UNCONFIRMED: case %" PRIu64 " %s reproduced %d/3\n", cn, how.c_str(), confirmed);
			failmsg = m;
			if (rc == 0) rc = 4;
		}
		double slowest = 0; for (Shm* s : sh) slowest = std::max(slowest, double(s->slowest));
		uint64_t ev = 0, di = 0, nt = 0; std::vector<uint64_t> all; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
		for (size_t w = 0; w < sh.size(); ++w)
		{
			ev += sh[w]->evaluated; di += sh[w]->discarded; nt += sh[w]->nontrivial;
			all.insert(all.end(), fps[w], fps[w] + std::min<uint64_t>(per, uint64_t(sh[w]->nontrivial)));
			for (uint32_t i = 0; i < sh[w]->nlabel; ++i) labels[sh[w]->label[i]] += sh[w]->label_n[i];
			for (uint32_t i = 0; i < sh[w]->nsample && i < 2; ++i) samples.push_back(sh[w]->sample[i]);
		}
		std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
		double wall = now() - t0;
		std::ofstream o(out + "/" + p->id + ".stats.json");
		o << "{\"cases\":" << cases << ",\"evaluated\":" << ev << ",\"discarded\":" << di << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << all.size()
			<< ",\"rule\":" << jstr(p->rule) << ",\"note\":" << jstr(p->note) << ",\"fixed_checks\":" << p->fixed.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"slowest_case_s\":" << slowest << ",\"wall_s\":" << wall << ",\"labels\":{";
		bool first = true; for (auto& [k, v] : labels) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
		o << "},\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
		o << "]}\n";
		std::printf("%s: %" PRIu64 " cases, %" PRIu64 " discarded, %zu distinct non-trivial, slowest %.2fs, %.1fs%s\n", p->id, ev, di, all.size(), slowest, wall, capped ? " (time cap)" : "");
		return rc;
	}
}

extern "C" __attribute__((weak, used)) char const* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=4096"; }
extern "C" __attribute__((weak, used)) char const* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:abort_on_error=1"; }

#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_(argc, argv); }
