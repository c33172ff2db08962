/* Worker: runs one shard of a property, replays a case, or shrinks one.
 *   vp run PROP --seed S --shard I/N --cases K [--thorough] [--seconds T]
 *          [--known a,b] --current FILE --out FILE --hashes FILE
 *   vp replay PROP FILE [--known a,b]       exit 0 pass, 10 fail
 *   vp shrink PROP FILE OUT [--known a,b] [--seconds T]
 *   vp merge FILE...                          prints the number of distinct hashes
 *   vp rule PROP
 * exit of run: 0 all passed, 10 a check failed, 11 hang, other: crash */
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include "core.h"
#include "gen.h"

static volatile uint64_t case_no;
static int hang_ticks = 40; /* seconds of CPU time in one case */

static double cpu()
{
	struct timespec t;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static bool load_current(const char *f, Case &c)
{
	std::ifstream in(f, std::ios::binary);
	uint32_t h[8];
	if (!in.read((char *)h, sizeof h) || !h[0]) return false;
	c.clear();
	c.sweep = (int)h[1];
	for (int i = 0; i < 3; i++) c.rep[i] = h[5 + i];
	c.cp.resize(h[2]); c.by.resize(h[3]); c.p.resize(h[4]);
	in.read((char *)c.cp.data(), h[2] * 4l);
	in.read((char *)c.p.data(), h[4] * 8l);
	in.read((char *)c.by.data(), h[3]);
	return (bool)in;
}
static void tick(int)
{
	static uint64_t last = ~0ull;
	static int same = 0;
	if (case_no != last) { last = case_no; same = 0; }
	else if (++same >= hang_ticks) {
		static const char m[] = "HANG: one case used too much CPU time\n";
		if (write(2, m, sizeof m - 1) < 0) {}
		_exit(11);
	}
}
static void arm_watchdog()
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, 0);
	struct itimerval it = {{1, 0}, {1, 0}};
	setitimer(ITIMER_PROF, &it, 0);
}
static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}
static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static void set_known(Ctx &x, const std::string &k)
{
	std::stringstream s(k);
	std::string v;
	while (std::getline(s, v, ',')) if (!v.empty()) x.known_allowed.insert(v);
}
static bool read_case(const char *f, Case &c)
{
	std::ifstream in(f);
	std::stringstream s;
	s << in.rdbuf();
	return c.parse(s.str()) || load_current(f, c);
}

static int do_run(const Prop &p, int argc, char **argv)
{
	uint64_t seed = 1, cases = 1000;
	unsigned shard = 0, nshard = 1;
	bool thorough = false;
	double seconds = 1e9;
	std::string cur, out, hashes;
	Ctx x;
	for (int i = 0; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--thorough") { thorough = true; continue; }
		if (i + 1 >= argc) return 2;
		std::string v = argv[++i];
		if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
		else if (a == "--shard") sscanf(v.c_str(), "%u/%u", &shard, &nshard);
		else if (a == "--seconds") seconds = atof(v.c_str());
		else if (a == "--current") cur = v;
		else if (a == "--out") out = v;
		else if (a == "--hashes") hashes = v;
		else if (a == "--known") set_known(x, v);
		else return 2;
	}
	if (!open_current(cur.c_str())) return 2;
	arm_watchdog();
	on_sub = save_current;

	std::unordered_set<uint64_t> seen;
	std::vector<std::string> samples;
	uint64_t ran = 0, nt = 0, sweeps = 0, sweepall = p.sweepn ? p.sweepn(thorough) : 0;
	double t0 = now();
	double slowest = 0;
	Case slow;
	bool cut = false;
	int rc = 0;
	std::string msg;
	Case c;
	RandSrc keep(seed * 7919 + shard);
	auto one = [&](Case &k, bool sample) -> bool {
		save_current(k);
		case_no = case_no + 1;
		uint64_t h = k.hash();
		Case orig = sample && samples.size() < 40 ? k : Case();
		double c0 = cpu();
		try {
			run_case(p, k, x);
			double took = cpu() - c0;
			if (took > slowest) {
				slowest = took;
				if (took > 0.5) slow = k;
			}
		} catch (Fail &f) {
			save_current(k); /* sweeps narrow it */
			msg = f.msg;
			return false;
		}
		ran++;
		if (x.nontrivial) {
			nt++;
			if (seen.size() < 20000000) seen.insert(h ^ (k.sweep ? 0x5bd1e995 : 0));
			if (sample && samples.size() < 40) {
				std::string s;
				if (!orig.cp.empty()) s += "cp: " + hex(orig.cp, 40) + "; ";
				if (!orig.by.empty()) s += "bytes: " + hexb(orig.by.data(), orig.by.size(), 60) + "; ";
				if (orig.repeats()) s += "repeat: " + std::to_string(orig.rep[0]) + " " + std::to_string(orig.rep[1]) + " " + std::to_string(orig.rep[2]) + "; ";
				s += orig.sweep ? "sweep index:" : "params:";
				for (size_t i = 0; i < orig.p.size() && i < 24; i++) s += " " + std::to_string(orig.p[i]);
				samples.push_back(s);
			}
		}
		return true;
	};
	for (uint64_t i = shard; i < sweepall; i += nshard) {
		c.clear();
		c.sweep = 1;
		c.p.push_back((int64_t)i);
		if (!one(c, samples.size() < 2)) { rc = 10; break; }
		sweeps++;
		if ((sweeps & 15) == 0 && now() - t0 > seconds) { cut = true; break; }
	}
	double t1 = now();
	RandSrc r(0);
	uint64_t grown = std::max<uint64_t>(1, cases / (thorough ? 1500 : 60));
	for (uint64_t i = 0; rc == 0 && !cut && p.gen && i < cases; i++) {
		/* every case has its own stream: case i of shard s is a pure function of the seed */
		RandSrc mix(seed ^ (uint64_t)(shard + 1) << 48);
		mix.s += i * 0xD1B54A32D192ED03ull;
		r.s = mix.next();
		c.clear();
		p.gen(r, c);
		/* some of the cases, spread evenly, are grown to long texts */
		if (p.grow && i % grown == 0) lengthen(p, r, c);
		if (!one(c, (i & (i - 1)) == 0 || i % 997 == 0)) { rc = 10; break; }
		if ((i & 63) == 0 && now() - t0 > seconds) { cut = true; break; }
	}
	if (rc) fprintf(stderr, "FAIL: %s\n", msg.c_str());
	std::ofstream o(out);
	o << "{\"ran\":" << ran << ",\"nontrivial\":" << nt << ",\"calls\":" << x.evals << ",\"sweep_done\":" << sweeps
	  << ",\"sweep_total\":" << sweepall << ",\"cut\":" << (cut ? "true" : "false") << ",\"sweep_s\":" << t1 - t0
	  << ",\"slowest_case_cpu_s\":" << slowest
	  << ",\"slowest_case\":" << jstr(slow.text()) << ",\"wall\":" << now() - t0 << ",\"message\":" << jstr(msg) << ",\"labels\":{";
	bool first = true;
	for (auto &l : x.labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
	o << "},\"known\":{";
	first = true;
	for (auto &l : x.known_hit) { o << (first ? "" : ",") << jstr(l.first) << ":[" << l.second.first << "," << jstr(l.second.second) << "]"; first = false; }
	o << "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]);
	o << "]}\n";
	std::ofstream hf(hashes, std::ios::binary);
	for (auto h : seen) hf.write((const char *)&h, 8);
	return rc;
}

static int quiet_try(const Prop &p, const Case &c, const std::string &known, std::string *msg)
{
	/* forked, so that crashes and hangs are verdicts too: 0 pass, 10 fail, 11 hang, 12 crash */
	int fd[2];
	if (pipe(fd)) return 0;
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		dup2(fd[1], 2);
		struct rlimit rl = {(rlim_t)hang_ticks, (rlim_t)hang_ticks + 1};
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit core = {0, 0};
		setrlimit(RLIMIT_CORE, &core);
		Ctx x;
		set_known(x, known);
		Case k = c;
		try { run_case(p, k, x); } catch (Fail &f) {
			if (write(2, f.msg.data(), f.msg.size()) < 0) {}
			_exit(10);
		}
		_exit(0);
	}
	close(fd[1]);
	std::string e;
	char b[4096];
	ssize_t r;
	while ((r = read(fd[0], b, sizeof b)) > 0) if (e.size() < 20000) e.append(b, (size_t)r);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if (msg) *msg = e;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 10) return 10;
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL))) return 11;
	return 12;
}

static int do_shrink(const Prop &p, const char *in, const char *outf, const std::string &known, double seconds)
{
	Case best;
	if (!read_case(in, best)) { fprintf(stderr, "cannot read %s\n", in); return 2; }
	std::string msg;
	double began = now();
	int v = quiet_try(p, best, known, &msg);
	if (now() - began > 8) seconds = 0; /* each attempt would take as long */
	auto emit = [&] {
		std::ofstream o(outf);
		o << "property " << p.id << "\n" << best.text();
		std::string m = msg;
		std::istringstream l(m);
		std::string s;
		int n = 0;
		while (std::getline(l, s) && n++ < 60) o << "# " << s << "\n";
	};
	if (v == 0) { emit(); return 3; } /* not reproducible */
	if (v == 11) seconds = std::min(seconds, 0.0);
	double end = now() + seconds;
	int tries = 0;
	auto attempt = [&](const Case &c) {
		if (now() > end || tries++ > 6000) return false;
		std::string m;
		int w = quiet_try(p, c, known, &m);
		if (w != v) return false;
		best = c;
		msg = m;
		return true;
	};
	bool again = !best.sweep && seconds > 0;
	while (again && now() < end) {
		again = false;
		/* shorten what is repeated */
		while (best.repeats()) {
			Case c = best;
			bool ok = false;
			for (uint32_t k : {1u, best.rep[2] / 2, best.rep[2] - best.rep[2] / 8, best.rep[2] - best.rep[2] / 64, best.rep[2] - 1}) {
				if (k >= best.rep[2]) continue;
				c.rep[2] = k;
				if ((ok = attempt(c))) break;
			}
			if (!ok) break;
			again = true;
		}
		auto cut = [&](Case &c, size_t i, size_t chunk) { /* of the repeated kind */
			uint32_t f = c.rep[0], e = f + c.rep[1];
			auto at = [&](uint32_t v) { return v <= i ? v : v >= i + chunk ? v - (uint32_t)chunk : (uint32_t)i; };
			c.rep[0] = at(f);
			c.rep[1] = at(e) - at(f);
		};
		/* delete chunks of code points, bytes */
		for (size_t chunk = std::max(best.cp.size(), best.by.size()); chunk >= 1; chunk /= 2) {
			for (size_t i = 0; i + chunk <= best.cp.size();) {
				Case c = best;
				cut(c, i, chunk);
				c.cp.erase(c.cp.begin() + (long)i, c.cp.begin() + (long)(i + chunk));
				if (attempt(c)) again = true; else i += chunk;
				if (now() > end) break;
			}
			for (size_t i = 0; i + chunk <= best.by.size();) {
				Case c = best;
				if (c.cp.empty()) cut(c, i, chunk);
				c.by.erase(c.by.begin() + (long)i, c.by.begin() + (long)(i + chunk));
				if (attempt(c)) again = true; else i += chunk;
				if (now() > end) break;
			}
		}
		/* drop trailing parameters */
		while (!best.p.empty()) {
			Case c = best;
			c.p.pop_back();
			if (!attempt(c)) break;
			again = true;
		}
		/* simpler values */
		static const uint32_t SIMPLE[] = {'a', ' ', '1', 'A', 0x300, 0x5D0, '(', ')'};
		for (size_t i = 0; i < best.cp.size(); i++)
			for (uint32_t s : SIMPLE) {
				if (best.cp[i] == s) break;
				Case c = best;
				c.cp[i] = s;
				if (attempt(c)) { again = true; break; }
			}
		for (size_t i = 0; i < best.by.size(); i++) {
			if (best.by[i] == 'a') continue;
			Case c = best;
			c.by[i] = 'a';
			if (attempt(c)) again = true;
		}
		for (size_t i = 0; i < best.p.size(); i++)
			for (int64_t s : {(int64_t)0, best.p[i] / 2, best.p[i] - 1}) {
				if (best.p[i] <= 0 || best.p[i] == s) continue;
				Case c = best;
				c.p[i] = s;
				if (attempt(c)) { again = true; break; }
			}
	}
	emit();
	printf("%d %d\n%s\n", v, tries, msg.c_str());
	return 0;
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	std::string mode = argv[1];
	if (mode == "merge") {
		std::unordered_set<uint64_t> all;
		for (int i = 2; i < argc; i++) {
			std::ifstream f(argv[i], std::ios::binary);
			uint64_t h;
			while (f.read((char *)&h, 8)) all.insert(h);
		}
		printf("%zu\n", all.size());
		return 0;
	}
	const Prop *p = find_prop(argv[2]);
	if (!p) { fprintf(stderr, "no property %s\n", argv[2]); return 2; }
	if (mode == "rule") { puts(p->rule); return 0; }
	ucd::init();
	gen::init();
	if (p->hang) hang_ticks = p->hang;
	if (mode == "run") return do_run(*p, argc - 3, argv + 3);
	std::string known;
	double seconds = 60;
	for (int i = 3; i + 1 < argc; i++) {
		if (!strcmp(argv[i], "--known")) known = argv[i + 1];
		if (!strcmp(argv[i], "--seconds")) seconds = atof(argv[i + 1]);
	}
	if (mode == "replay") {
		Case c;
		if (argc < 4 || !read_case(argv[3], c)) { fprintf(stderr, "cannot read the case\n"); return 2; }
		std::string m;
		int v = quiet_try(*p, c, known, &m);
		printf("%s%s%s\n", v == 0 ? "pass" : v == 10 ? "fail: " : v == 11 ? "hang" : "crash: ", m.c_str(), "");
		return v;
	}
	if (mode == "shrink" && argc >= 5) return do_shrink(*p, argv[3], argv[4], known, seconds);
	return 2;
}
