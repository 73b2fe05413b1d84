// Output protocol: "V pid key | detail", "S name value", "X sample", "END".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>

struct Report
{
	std::map<std::string, double> stat;
	std::map<std::string, int> seen;
	int violations = 0, samples = 0;
	std::map<std::string, double> before; // at the start of the case
	std::set<unsigned long long> hashes;
	std::string ctx; // current case
	long cur = -1;
	void S(const std::string& k, double v = 1) { stat[k] += v; }
	void Max(const std::string& k, double v) { auto it = stat.find("max." + k); if (it == stat.end()) stat["max." + k] = v; else if (v > it->second) it->second = v; }
	void V(const char* pid, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
	{
		violations++;
		if (++seen[std::string(pid) + key] > 2) return;
		char buf[900]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
		printf("V %s %s case=%ld | %s [%s]\n", pid, key.c_str(), cur, buf, ctx.c_str());
		fflush(stdout);
	}
	void Sample(const std::string& s) { if (samples++ < 4) { printf("X %s\n", s.c_str()); } }
	// one case is over: it counts as non-trivial if one of the named counters rose
	void Case(const std::vector<const char*>& keys)
	{
		bool hit = false;
		for (auto k : keys) { const double v = stat.count(k) ? stat[k] : 0; if (v != before[k]) hit = true; before[k] = v; }
		if (!hit) return;
		unsigned long long h = 1469598103934665603ull;
		for (unsigned char c : ctx) h = (h ^ c) * 1099511628211ull;
		hashes.insert(h);
	}
	void End()
	{
		for (auto h : hashes) printf("H %llx\n", h);
		for (auto& k : stat) printf("S %s %.12g\n", k.first.c_str(), k.second);
		printf("END\n"); fflush(stdout);
	}
};
extern Report R;
