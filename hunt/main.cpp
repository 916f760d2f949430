#include "hunt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>
#include <algorithm>

std::vector<Test>& tests() { static std::vector<Test> t; return t; }

S esc(const S& s) {
	S r; char b[8];
	for (size_t i = 0; i < s.size() && i < 4000; i++) {
		unsigned char c = s[i];
		if (c == '\\' || c == '"') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
		else if (c >= 32 && c < 127) r += c;
		else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	if (s.size() > 4000) r += "...(" + num(s.size()) + " bytes)";
	return r;
}
S num(long long x) { char b[32]; snprintf(b, sizeof b, "%lld", x); return b; }
S nth(const std::vector<S>& a, uint64_t i) {
	uint64_t n = a.size(); int len = 0; uint64_t block = 1;
	while (i >= block) { i -= block; block *= n; len++; }
	S r; std::vector<S> parts;
	for (int k = 0; k < len; k++) { parts.push_back(a[i % n]); i /= n; }
	for (auto it = parts.rbegin(); it != parts.rend(); ++it) r += *it;
	return r;
}
S rnd(Rng& r, const std::vector<S>& a, size_t maxlen) { S s; size_t n = r.below(maxlen + 1); for (size_t i = 0; i < n; i++) s += r.pick(a); return s; }
S rbytes(Rng& r, size_t n) { S s; for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
S mutate(Rng& r, S s, const std::vector<S>& a, int n) {
	for (int i = 0; i < n; i++) {
		size_t p = r.below(s.size() + 1);
		switch (r.below(4)) {
			case 0: s.insert(p, r.pick(a)); break;
			case 1: if (p < s.size()) s.erase(p, 1 + r.below(3)); break;
			case 2: if (p < s.size()) s.replace(p, 1, r.pick(a)); break;
			case 3: if (s.size() > 1) { size_t q = r.below(s.size()), l = 1 + r.below(6); s.insert(p, s.substr(q, l)); } break;
		}
	}
	return s;
}

// ---------------------------------------------------------------- shared state of one worker
struct Shared {
	volatile uint64_t evals, beat; volatile int done, failed; volatile uint64_t distinct;
	char test[64];
	volatile uint64_t len; char buf[1 << 20]; char msg[1 << 15];
	volatile uint64_t per[512];
};
static S pack(const Input& in) { S r; for (auto& f : in) { uint64_t n = f.size(); r.append((char*)&n, 8); r += f; } return r; }
static Input unpack(const S& s) { Input in; size_t p = 0; while (p + 8 <= s.size()) { uint64_t n; memcpy(&n, s.data() + p, 8); p += 8; if (p + n > s.size()) break; in.push_back(s.substr(p, n)); p += n; } return in; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Shared* g_sh;
static void publish(const char* t, const Input& in) {
	S p = pack(in); if (p.size() > sizeof g_sh->buf) p.resize(sizeof g_sh->buf);
	strncpy(g_sh->test, t, 63); memcpy(g_sh->buf, p.data(), p.size()); g_sh->len = p.size(); g_sh->beat++;
}
static S runone(const Test& t, const Input& in) { publish(t.name.c_str(), in); S r = t.run(in); g_sh->evals++; return r; }

static void shrink(const Test& t, Input& in, S& msg) {
	double end = now() + 4;
	bool prog = true;
	while (prog && now() < end) {
		prog = false;
		for (size_t f = 0; f < in.size(); f++) {
			for (size_t chunk = std::max<size_t>(in[f].size() / 2, 1); chunk >= 1 && now() < end; chunk /= 2) {
				for (size_t p = 0; p + chunk <= in[f].size() && now() < end;) {
					Input c = in; c[f].erase(p, chunk);
					S m; 
					try { m = runone(t, c); } catch (...) { m = ""; }
					if (!m.empty()) { in = c; msg = m; prog = true; } else p += chunk;
				}
				if (chunk == 1) break;
			}
		}
	}
}
static void worker(const std::vector<const Test*>& ts, uint64_t seed, int w, int nw, double secs) {
	double end = now() + secs;
	std::vector<uint64_t> idx(ts.size(), w);
	std::vector<std::set<uint64_t>> seen(ts.size());
	Rng rng(seed * 7919 + w + 1);
	int totw = 0; for (auto t : ts) totw += t->weight;
	while (now() < end) {
		for (size_t k = 0; k < ts.size(); k++) {
			const Test& t = *ts[k];
			double slice = now() + std::max(0.004, 0.05 * t.weight / totw * ts.size());
			do {
				Input in = t.gen(rng, idx[k]); idx[k] += nw;
				if (seen[k].size() < 200000) { uint64_t h = std::hash<S>()(pack(in)); if (seen[k].insert(h).second) g_sh->distinct++; }
				S m = runone(t, in); g_sh->per[k]++;
				if (!m.empty()) {
					g_sh->failed = 1;
					snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str());
					shrink(t, in, m);
					publish(t.name.c_str(), in);
					snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str());
					g_sh->done = 1; _exit(3);
				}
			} while (now() < slice);
		}
	}
	g_sh->done = 1; _exit(0);
}
static S hex(const S& s) { S r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static S unhex(const S& s) { S r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return r; }

// processor time used by a child
static double cputime(pid_t p) { clockid_t c; struct timespec t; if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
	S prop, replay, out = "replay.txt"; uint64_t seed = 1; double secs = 5; int nw = 8; S only;
	for (int i = 1; i + 1 < argc; i += 2) {
		S a = argv[i], v = argv[i + 1];
		if (a == "--prop") prop = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--seconds") secs = atof(v.c_str());
		else if (a == "--out") out = v; else if (a == "--replay") replay = v; else if (a == "--workers") nw = atoi(v.c_str()); else if (a == "--test") only = v;
	}
	signal(SIGPIPE, SIG_IGN);
	if (!replay.empty()) {
		FILE* f = fopen(replay.c_str(), "r"); if (!f) return 2;
		S txt; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) txt.append(b, n); fclose(f);
		S name; Input in; size_t p = 0;
		while (p < txt.size()) { size_t e = txt.find('\n', p); if (e == S::npos) e = txt.size(); S l = txt.substr(p, e - p); p = e + 1;
			if (l.compare(0, 5, "test ") == 0) name = l.substr(5); else if (l.compare(0, 6, "field ") == 0) in.push_back(unhex(l.substr(6))); else if (l == "field") in.push_back(""); }
		g_sh = (Shared*)calloc(1, sizeof(Shared));
		for (auto& t : tests()) if (t.name == name) { S m = t.run(in); if (m.empty()) { printf("the property holds on this input\n"); return 0; } printf("VIOLATED: %s\n", m.c_str()); return 1; }
		return 2;
	}
	std::vector<const Test*> ts;
	for (auto& t : tests()) if ((prop.empty() || t.prop == prop) && (only.empty() || t.name == only)) ts.push_back(&t);
	if (ts.empty()) { printf("no tests for %s\n", prop.c_str()); return 2; }
	std::vector<Shared*> sh; std::vector<pid_t> pid; std::vector<uint64_t> lastbeat(nw, 0); std::vector<double> lastt(nw, 0);
	for (int w = 0; w < nw; w++) {
		Shared* s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh.push_back(s); fflush(stdout);
		pid_t p = fork();
		if (p == 0) { g_sh = s; FILE* ef = freopen((out + ".err" + num(w)).c_str(), "w", stderr); (void)ef; worker(ts, seed, w, nw, secs); }
		pid.push_back(p);
	}
	int bad = -1; S why; int live = nw; std::vector<int> st(nw, -1);
	double hard = now() + secs + 60;
	while (live > 0 && bad < 0) {
		usleep(20000);
		for (int w = 0; w < nw; w++) if (st[w] < 0) {
			int s; pid_t r = waitpid(pid[w], &s, WNOHANG);
			if (r == pid[w]) {
				st[w] = s; live--;
				if (WIFEXITED(s) && WEXITSTATUS(s) == 0) continue;
				if (WIFEXITED(s) && WEXITSTATUS(s) == 3) { bad = w; why = sh[w]->msg; break; }
				if (WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL) { continue; }
				bad = w; why = sh[w]->failed ? S(sh[w]->msg) : WIFSIGNALED(s) ? S("the process was ended by signal ") + num(WTERMSIG(s)) + " (memory error, abort or assertion)" : S("the process ended abnormally (sanitizer or assertion report)");
				break;
			}
			double cpu = cputime(pid[w]);
			if (sh[w]->beat != lastbeat[w]) { lastbeat[w] = sh[w]->beat; lastt[w] = cpu; }
			else if (cpu - lastt[w] > 25 && sh[w]->beat > 0) { bad = w; why = "the operation does not terminate (no result within 25 s of processor time)"; break; }
		}
		if (now() > hard) break;
	}
	uint64_t ev = 0, di = 0; std::vector<uint64_t> per(ts.size(), 0);
	for (int w = 0; w < nw; w++) { ev += sh[w]->evals; di += sh[w]->distinct; for (size_t k = 0; k < ts.size(); k++) per[k] += sh[w]->per[k]; if (st[w] < 0) kill(pid[w], SIGKILL); }
	for (int w = 0; w < nw; w++) if (st[w] < 0) waitpid(pid[w], 0, 0);
	printf("STATS evaluations=%llu distinct=%llu", (unsigned long long)ev, (unsigned long long)di);
	for (size_t k = 0; k < ts.size(); k++) printf(" %s=%llu", ts[k]->name.c_str(), (unsigned long long)per[k]);
	printf("\n");
	if (bad >= 0) {
		Input in = unpack(S(sh[bad]->buf, sh[bad]->len));
		FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
		S pr; for (auto t : ts) if (t->name == sh[bad]->test) pr = t->prop;
		fprintf(f, "property %s\ntest %s\n", pr.c_str(), sh[bad]->test);
		for (auto& x : in) fprintf(f, "field %s\n", hex(x).c_str());
		for (size_t i = 0; i < in.size(); i++) fprintf(f, "# field %d as text: \"%s\"\n", (int)i, esc(in[i]).c_str());
		fprintf(f, "# observed: %s\n", why.c_str());
		FILE* e = fopen((out + ".err" + num(bad)).c_str(), "r");
		if (e) { char l[1024]; int n = 0; while (n++ < 40 && fgets(l, sizeof l, e)) fprintf(f, "# stderr: %s", l); fclose(e); }
		fclose(f);
		printf("FAIL test=%s %s\n", sh[bad]->test, why.c_str());
	}
	for (int w = 0; w < nw; w++) unlink((out + ".err" + num(w)).c_str());
	return bad >= 0 ? 1 : 0;
}
