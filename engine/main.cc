// Driver: one worker process per scenario, result aggregation, replay files, evidence.
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>
using namespace mc;
void load_api(); void reg_all(); int kworker_main(const char* dir, int zombies); int khold_main(int ch); void k_cleanup(); extern bool k_skipped; extern std::string k_skip; extern long k_steps;   // scen/k01_kernel.cc
static std::string selfdir, vdir = "/verif";
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static std::string slurp(const std::string& p){ std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string jesc(const std::string& s){ std::string o; for(unsigned char c : s){ if(c == '"' || c == '\\'){ o += '\\'; o += (char)c; } else if(c == '\n') o += "\\n"; else if(c == '\t') o += "  "; else if(c < 32) o += ' '; else if(c > 126) o += '?'; else o += (char)c; } return o; }
// ---- known findings: lines "KNOWN-FINDING: property=<id> scenario=<name> match=<substring> :: <what fails>"
struct Known { std::string prop, scen, match, text; };
static std::vector<Known> g_known; static std::string cur_scen;
static void load_known()
{
	std::ifstream f(vdir + "/known-findings.txt"); std::string l;
	while(std::getline(f, l)){
		if(l.compare(0, 15, "KNOWN-FINDING: ")) continue;
		Known k; auto get = [&](const char* key, const char* end){ size_t p = l.find(key); if(p == std::string::npos) return std::string(); p += strlen(key); size_t e = l.find(end, p); return l.substr(p, e == std::string::npos ? e : e - p); };
		k.prop = get("property=", " "); k.scen = get("scenario=", " "); k.match = get("match=", " :: "); k.text = get(" :: ", "\n"); g_known.push_back(k);
	}
}
static bool scen_is(const std::string& pat, const std::string& n){ return !pat.empty() && pat.back() == '*' ? n.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0 : pat == n; } // a trailing * stands for the variants of a scenario
static bool known_cb(const std::string& m){ for(auto& k : g_known) if(scen_is(k.scen, cur_scen) && !k.match.empty() && m.find(k.match) != std::string::npos) return true; return false; }

static std::string brief(const std::string& tr, size_t max = 4000)
{
	std::stringstream s(tr); std::string l, o; while(std::getline(s, l)){ size_t p = l.find("] "); if(p == std::string::npos) continue; const char* q = l.c_str() + p + 2; if(!strncmp(q, "    ", 4)) continue; o += l + "\n"; if(o.size() > max){ o += "...\n"; break; } } return o;
}
struct Out { std::string name; int status = -1; std::string text; pid_t pid = -1; int fd = -1; double t0 = 0; const Scenario* s = nullptr; };
static std::map<std::string,std::string> kv(const std::string& t){ std::map<std::string,std::string> m; std::stringstream s(t); std::string l; while(std::getline(s, l)){ size_t p = l.find('='); if(p != std::string::npos) m[l.substr(0, p)] += (m.count(l.substr(0, p)) ? "\n" : "") + l.substr(p + 1); } return m; }
static void put(int fd, const std::string& s){ size_t o = 0; while(o < s.size()){ ssize_t r = write(fd, s.data() + o, s.size() - o); if(r <= 0) _exit(4); o += (size_t)r; } }
static std::string choices_str(const std::vector<int>& c){ std::string o; for(int x : c) o += std::to_string(x) + " "; return o; }
static void worker(const Scenario& s, const Bounds& b, int fd, const std::string& rpath)
{
	struct rlimit rl = {6UL << 30, 6UL << 30}; setrlimit(RLIMIT_AS, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	init_engine((selfdir + "/libfl_inst.so").c_str()); load_api(); cur_scen = s.name; is_known = known_cb;
	Result r = explore(s, b); std::string cf = dump_conf(); std::ostringstream o; Stats st = r.st;
	o << "execs=" << st.execs << "\npoints=" << st.points << "\nsteps=" << st.steps << "\nstates=" << st.states << "\npruned=" << st.pruned << "\noutcomes=" << st.outcomes.size() << "\nbound=" << st.bound_done << "\nrounds=" << st.rounds << "\ndepth=" << st.maxdepth << "\ncapped=" << (st.capped ? 1 : 0) << "\nsec=" << st.sec << "\n";
	for(auto& k : st.known) o << "known=" << jesc(k.first) << " (" << k.second << " executions)\n";
	is_known = nullptr;
	if(!r.ok){
		Result q1 = replay(s, r.used, r.choices, cf), q2 = replay(s, r.used, r.choices, cf);
		if(q1.ok || q2.ok || q1.msg != r.msg || q2.msg != r.msg){ fprintf(stderr, "ENGINE ERROR [%s]: violation '%s' did not replay (got '%s' / '%s')\n", s.name.c_str(), r.msg.c_str(), q1.msg.c_str(), q2.msg.c_str()); fflush(0); _exit(3); }
		std::ofstream f(rpath); f << "scenario " << s.name << "\nproperty " << s.prop << "\nmessage " << jesc(r.msg) << "\npreempt " << r.used.preempt << "\ncrash " << r.used.crash << "\nchoices " << choices_str(r.choices) << "\nconf " << cf << "\n---- schedule\n" << brief(q1.trace, 20000) << "---- full trace\n" << q1.trace; f.close();
		o << "violation=" << jesc(r.msg) << "\nreplay=" << rpath << "\n";
		std::stringstream bs(brief(q1.trace)); std::string l; while(std::getline(bs, l)) o << "trace=" << l << "\n";
	}else if(!st.sample.empty() || st.execs){
		Result q1 = replay(s, st.sample_b, st.sample, cf), q2 = replay(s, st.sample_b, st.sample, cf);
		if(!q1.ok && !known_cb(q1.msg)){ fprintf(stderr, "ENGINE ERROR [%s]: replay of a passing execution failed: %s\n", s.name.c_str(), q1.msg.c_str()); fflush(0); _exit(3); }
		if(q1.trace != q2.trace || q1.outcome != q2.outcome){ fprintf(stderr, "ENGINE ERROR [%s]: two replays of one schedule differ\n", s.name.c_str()); fflush(0); _exit(3); }
		o << "replayed=1\n"; std::stringstream bs(brief(q1.trace, 1500)); std::string l; while(std::getline(bs, l)) o << "trace=" << l << "\n";
	}
	if(k_steps || k_skipped) o << "ksteps=" << k_steps << "\nkskip=" << k_skip << "\n"; k_cleanup(); put(fd, o.str()); fflush(0); _exit(0);
}
static int check(const std::string& prop, bool thorough, const std::string& only)
{
	double t0 = wall(); std::vector<Out> jobs; std::string rdir = vdir + "/build/replays"; mkdir((vdir + "/build").c_str(), 0755); mkdir(rdir.c_str(), 0755);
	for(auto& s : scenarios()) if(s.prop == prop && (thorough || s.in_quick) && (only.empty() || only == s.name)){ Out o; o.name = s.name; o.s = &s; jobs.push_back(o); }
	for(auto& s : scenarios()) if(s.prop == "KERNEL-" + prop && (thorough || s.in_quick) && only.empty()){ Out o; o.name = s.name; o.s = &s; jobs.push_back(o); }   // conformance of the virtual kernel with the real one
	if(jobs.empty()){ fprintf(stderr, "no scenarios for property %s\n", prop.c_str()); return 2; }
	size_t next = 0, live = 0, done = 0; int par = 8;
	while(done < jobs.size()){
		while(live < (size_t)par && next < jobs.size()){
			Out& j = jobs[next++]; int p[2]; if(pipe(p)) return 2; fflush(0);
			j.pid = fork(); if(j.pid < 0) return 2;
			if(!j.pid){ close(p[0]); for(auto& k : jobs) if(k.fd >= 0) close(k.fd); Bounds b = thorough ? j.s->thorough : j.s->quick; worker(*j.s, b, p[1], rdir + "/" + prop + "-" + j.name + ".replay"); }
			close(p[1]); j.fd = p[0]; j.t0 = wall(); live++;
		}
		std::vector<struct pollfd> pf; std::vector<Out*> po; for(auto& j : jobs) if(j.fd >= 0){ pf.push_back({j.fd, POLLIN, 0}); po.push_back(&j); }
		poll(pf.data(), pf.size(), 1000);
		for(size_t i = 0; i < pf.size(); i++) if(pf[i].revents){ char b[65536]; ssize_t r = read(pf[i].fd, b, sizeof b); if(r > 0) po[i]->text.append(b, (size_t)r); else { close(pf[i].fd); po[i]->fd = -1; int st; waitpid(po[i]->pid, &st, 0); po[i]->status = st; live--; done++; } }
	}
	long states = 0, trans = 0, execs = 0, replays = 0, nviol = 0, steps = 0; bool err = false, capped = false; std::string sj, samples; std::vector<std::string> kmsgs;
	std::map<std::string,bool> seenk;
	std::string kj; long ksteps = 0, khist = 0, kbad = 0;
	for(auto& j : jobs){
		if(j.s->prop.compare(0, 7, "KERNEL-") == 0 && prop.compare(0, 7, "KERNEL-")){
			auto m = kv(j.text); bool eng = !WIFEXITED(j.status) || WEXITSTATUS(j.status), v = m.count("violation"); kbad += v || eng; ksteps += atol(m["ksteps"].c_str()); khist += atol(m["execs"].c_str());
			printf("%-37s %s histories=%s states=%s calls-compared=%s depth=%s %ss%s %s\n", j.name.c_str(), eng ? "ENGINE ERROR" : v ? "DIFFERS" : "conforms", m["execs"].c_str(), m["states"].c_str(), m["ksteps"].c_str(), m["depth"].c_str(), m["sec"].c_str(), m["capped"] == "1" ? " (capped)" : "", (m["kskip"] + m["violation"]).c_str());
			if(!kj.empty()) kj += ",\n"; kj += "   {\"family\":\"" + jesc(j.name) + "\",\"histories\":" + (m["execs"].empty() ? "0" : m["execs"]) + ",\"states\":" + (m["states"].empty() ? "0" : m["states"]) + ",\"calls_compared\":" + (m["ksteps"].empty() ? "0" : m["ksteps"]) + ",\"capped\":" + (m["capped"] == "1" ? "true" : "false") + ",\"difference\":\"" + jesc(m["violation"]) + "\",\"not_compared\":\"" + jesc(m["kskip"]) + "\"}";
			continue;
		}
		auto m = kv(j.text); if(!WIFEXITED(j.status) || WEXITSTATUS(j.status)){ err = true; printf("scenario %-28s ENGINE ERROR status %d\n", j.name.c_str(), j.status); continue; }
		long ex = atol(m["execs"].c_str()); states += atol(m["states"].c_str()); trans += atol(m["points"].c_str()); execs += ex; steps += atol(m["steps"].c_str()); replays += m.count("replayed") ? 2 : 0; bool cap = m["capped"] == "1"; capped |= cap;
		const Bounds& b = thorough ? j.s->thorough : j.s->quick; bool v = m.count("violation");
		printf("scenario %-28s %s executions=%ld states=%s transitions=%s deviations<=%s/%d crashes<=%d outcomes=%s depth=%s %ss%s\n", j.name.c_str(), v ? "VIOLATED" : "ok", ex, m["states"].c_str(), m["points"].c_str(), m["bound"].c_str(), b.preempt, b.crash, m["outcomes"].c_str(), m["depth"].c_str(), m["sec"].c_str(), cap ? " (capped)" : ""); if(!m["kskip"].empty()) printf("  not compared: %s\n", m["kskip"].c_str());
		if(m.count("known")) for(auto& k : g_known) if(scen_is(k.scen, j.name) && m["known"].find(jesc(k.match)) != std::string::npos){ std::string t = "KNOWN-FINDING: property=" + prop + " " + k.text; if(!seenk[t]){ seenk[t] = true; kmsgs.push_back(t); } }
		if(v){ nviol++; printf("  %s\n%s\n", m["violation"].c_str(), m["trace"].c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), m["replay"].c_str()); }
		if(!sj.empty()) sj += ",\n";
		sj += "   {\"scenario\":\"" + jesc(j.name) + "\",\"executions\":" + std::to_string(ex) + ",\"states\":" + m["states"] + ",\"transitions\":" + m["points"] + ",\"visible_steps\":" + m["steps"] + ",\"pruned_revisits\":" + m["pruned"] + ",\"deviation_bound_completed\":" + m["bound"] + ",\"deviation_bound_requested\":" + std::to_string(b.preempt) + ",\"crash_budget\":" + std::to_string(b.crash) + ",\"distinct_outcomes\":" + m["outcomes"] + ",\"max_choice_depth\":" + m["depth"] + ",\"capped\":" + (cap ? "true" : "false") + ",\"wall_s\":" + m["sec"] + ",\"violation\":\"" + jesc(m["violation"]) + "\"}";
		if(!samples.empty()) samples += ",\n"; samples += "   {\"scenario\":\"" + jesc(j.name) + "\",\"schedule\":\"" + jesc(m["trace"]) + "\"}";
	}
	for(auto& k : kmsgs) printf("%s\n", k.c_str());
	mkdir((vdir + "/evidence").c_str(), 0755); const char* sd = getenv("VERIF_SEED"); long seed = sd ? atol(sd) : 1;
	if(only.empty() && !err){
		std::ofstream f(vdir + "/evidence/" + prop + ".json");
		f << "{\n \"property\":\"" << prop << "\",\n \"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\":" << seed << ",\n \"level\":\"model_checking\",\n \"coverage\":{\n  \"states\":" << states << ",\n  \"transitions\":" << trans << ",\n  \"traces_validated_against_impl\":" << execs << ",\n  \"traces_note\":\"every trace is an execution of the library's own compiled code under the controlled scheduler; the deepest passing schedule of each scenario was replayed twice and compared\",\n  \"determinism_replays\":" << replays << ",\n  \"visible_steps\":" << steps << ",\n  \"exhaustive\":" << (capped ? "false" : "true") << ",\n  \"exhaustive_note\":\"within the deviation and crash bounds of each scenario; capped scenarios completed the smaller bound shown\",\n  \"scenarios\":[\n" << sj << "],\n  \"samples\":[\n" << samples << "]" << (kj.empty() ? "" : ",\n  \"kernel_conformance\":{\"histories\":" + std::to_string(khist) + ",\"calls_compared\":" + std::to_string(ksteps) + ",\"differences\":" + std::to_string(kbad) + ",\"families\":[\n" + kj + "]}") << "\n },\n \"assumptions\":[\"sequentially consistent memory\",\"virtual kernel semantics of engine/venv.cc (the checks of C07, C13 and C14 compare it with the real kernel, call by call, on every history of system calls up to a depth)\",\"waiting loops are abstracted: re-reading unchanged shared state is not an event\",\"process and thread ids are not reused\"],\n \"wall_s\":" << (wall() - t0) << ",\n \"violations\":" << nviol << "\n}\n";
	}
	printf("property %s: %s executions=%ld states=%ld transitions=%ld %.1fs\n", prop.c_str(), nviol ? "VIOLATED" : err ? "ERROR" : "held", execs, states, trans, wall() - t0);
	fflush(0); return nviol ? 1 : err ? 2 : 0;
}
int main(int c, char** v)
{
	if(c > 3 && !strcmp(v[1], "kworker")) return kworker_main(v[2], atoi(v[3]));
	if(c > 2 && !strcmp(v[1], "khold")) return khold_main(atoi(v[2]));
	if(!getenv("MC_NOASLR")){ setenv("MC_NOASLR", "1", 1); if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", v); }
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if(n < 0) return 2; self[n] = 0; selfdir = self; selfdir = selfdir.substr(0, selfdir.rfind('/'));
	std::string cmd = c > 1 ? v[1] : "list", arg, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", only; int pb = -1, cb = -1; bool loud = true; double maxsec = -1;
	for(int i = 2; i < c; i++){ std::string a = v[i]; if(a == "--tier" && i + 1 < c) tier = v[++i]; else if(a == "--verif" && i + 1 < c) vdir = v[++i]; else if(a == "--only" && i + 1 < c) only = v[++i]; else if(a == "-p" && i + 1 < c) pb = atoi(v[++i]); else if(a == "-c" && i + 1 < c) cb = atoi(v[++i]); else if(a == "-s" && i + 1 < c) maxsec = atof(v[++i]); else if(a == "-q") loud = false; else arg = a; }
	reg_all(); load_known();
	if(cmd == "list"){ for(auto& s : scenarios()) printf("%s %s quick(p=%d,c=%d%s) thorough(p=%d,c=%d)\n", s.prop.c_str(), s.name.c_str(), s.quick.preempt, s.quick.crash, s.in_quick ? "" : ",off", s.thorough.preempt, s.thorough.crash); return 0; }
	if(cmd == "check") return check(arg, tier == "thorough", only);
	if(cmd == "run" || cmd == "trace"){
		for(auto& s : scenarios()) if(s.name == arg){
			init_engine((selfdir + "/libfl_inst.so").c_str()); load_api(); cur_scen = s.name; is_known = known_cb;
			Bounds b = tier == "thorough" ? s.thorough : s.quick; if(pb >= 0) b.preempt = pb; if(cb >= 0) b.crash = cb; if(maxsec > 0) b.max_sec = maxsec; Result r = explore(s, b);
			printf("%s: %s execs=%ld points=%ld steps=%ld states=%ld pruned=%ld outcomes=%zu bound=%d rounds=%ld depth=%ld %.2fs%s %s\n", s.name.c_str(), r.ok ? "OK" : "VIOLATION", r.st.execs, r.st.points, r.st.steps, r.st.states, r.st.pruned, r.st.outcomes.size(), r.st.bound_done, r.st.rounds, r.st.maxdepth, r.st.sec, r.st.capped ? " capped" : "", r.msg.c_str());
			for(auto& k : r.st.known) printf("known: %s (%ld)\n", k.first.c_str(), k.second);
			if(k_steps || k_skipped) printf("kernel calls compared: %ld %s\n", k_steps, k_skip.c_str());
			if(!r.ok || cmd == "trace"){ auto cf = dump_conf(); Result q = replay(s, r.ok ? r.st.sample_b : r.used, r.ok ? r.st.sample : r.choices, cf); printf("replay: %s %s\n%s\n", q.ok ? "OK" : "violation", q.msg.c_str(), loud ? q.trace.c_str() : brief(q.trace, 100000).c_str()); }
			k_cleanup(); fflush(0); _exit(r.ok ? 0 : 1);
		}
		fprintf(stderr, "no scenario %s\n", arg.c_str()); return 2;
	}
	if(cmd == "replay"){
		std::stringstream f(slurp(arg)); std::string l, scen, conf; std::vector<int> ch; Bounds b;
		while(std::getline(f, l)){ if(!l.compare(0, 4, "----")) break; size_t p = l.find(' '); std::string k = l.substr(0, p), x = p == std::string::npos ? "" : l.substr(p + 1); if(k == "scenario") scen = x; else if(k == "preempt") b.preempt = atoi(x.c_str()); else if(k == "crash") b.crash = atoi(x.c_str()); else if(k == "choices"){ std::stringstream s(x); int i; while(s >> i) ch.push_back(i); } else if(k == "conf") conf = x; }
		for(auto& s : scenarios()) if(s.name == scen){ init_engine((selfdir + "/libfl_inst.so").c_str()); load_api(); Result q = replay(s, b, ch, conf); printf("%s\n%s: %s\n", q.trace.c_str(), q.ok ? "no violation" : "VIOLATION", q.msg.c_str()); fflush(0); _exit(q.ok ? 0 : 1); }
		return 2;
	}
	fprintf(stderr, "usage: flmc list | check PROP [--tier quick|thorough] | run|trace SCENARIO [-p N] [-c N] | replay FILE\n"); return 2;
}
