#include "driver.h"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <functional>

namespace driver {

int Main(int argc, char** argv,
         const std::function<void(const Scenario&)>& body) {
  if (argc < 3) return 2;
  std::ifstream jobs(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!jobs || !out) return 2;
  std::string line;
  long execs = 0, distinct = 0, dup = 0, hangs = 0;
  std::set<std::size_t> seen;
  // Executions that hang take long; two of them are enough.
  while (hangs < 2 && std::getline(jobs, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::map<std::string, std::string> kv;
    std::istringstream is(line);
    std::string tok;
    while (is >> tok) {
      std::size_t e = tok.find('=');
      kv[tok.substr(0, e)] = tok.substr(e + 1);
    }
    auto num = [&](const char* k, long long d) {
      return kv.count(k) ? std::stoll(kv[k]) : d;
    };
    Scenario sc;
    sc.kind = kv["kind"];
    sc.spec = kv["spec"];
    sc.yields = num("yields", 0);
    sc.id = num("id", 0);
    rt::Config c;
    const std::string mode = kv["mode"];
    c.mode = mode == "pct"    ? rt::Mode::kPct
             : mode == "hint" ? rt::Mode::kHint
             : mode == "dfs"  ? rt::Mode::kDfs
             : mode == "rr"   ? rt::Mode::kRoundRobin
                              : rt::Mode::kRandom;
    c.switch_permille = num("switch", 300);
    c.pct_depth = num("depth", 3);
    c.pct_len = num("len", 400);
    c.spurious_permille = num("spurious", 0);
    c.tick_ns = num("tick", 500000);
    c.preemption_bound = num("bound", 2);
    c.max_steps = num("maxsteps", 60000);
    c.log_sync = num("sync", 1);
    c.log_access = num("access", 1);
    if (kv.count("prefix")) {
      std::istringstream ps(kv["prefix"]);
      std::string x;
      while (std::getline(ps, x, ',')) c.prefix.push_back(std::stoi(x));
    }
    long long seed = num("seed", 1);
    long long count = num("count", 1);
    double timeout = num("timeout", 30);
    for (long long i = 0; i < count && hangs < 2; i++) {
      c.seed = seed + i;
      std::ostringstream h;
      h << "{\"k\":\"begin\",\"t\":0,\"kind\":\"" << sc.kind << "\",\"spec\":\""
        << sc.spec << "\",\"mode\":\"" << mode << "\",\"seed\":" << c.seed
        << ",\"job\":\"" << sc.id << "\",\"prefix\":\"";
      for (std::size_t j = 0; j < c.prefix.size(); j++)
        h << (j ? "," : "") << c.prefix[j];
      h << "\"}";
      std::string trace;
      std::vector<rt::Decision> dec;
      if (!rt::RunForked(c, h.str(), [&] { body(sc); }, &trace, &dec, timeout)) {
        std::cerr << "driver: could not run\n";
        return 3;
      }
      execs++;
      if (trace.find("\"out\":\"hang\"") != std::string::npos) hangs++;
      // Identical traces (apart from the header) are written once.
      std::size_t key =
          std::hash<std::string>()(sc.spec + trace.substr(trace.find('\n')));
      if (seen.insert(key).second) {
        distinct++;
        fwrite(trace.data(), 1, trace.size(), out);
      } else {
        dup++;
      }
      if (c.mode == rt::Mode::kDfs) {
        // Next schedule in depth-first order.
        int k = (int)dec.size() - 1;
        while (k >= 0 && dec[k].chosen + 1 >= dec[k].options) k--;
        if (k < 0) {
          std::cout << "dfs-complete " << sc.kind << " " << sc.spec << " " << i + 1
                    << "\n";
          break;
        }
        c.prefix.clear();
        for (int j = 0; j < k; j++) c.prefix.push_back(dec[j].chosen);
        c.prefix.push_back(dec[k].chosen + 1);
        if (i + 1 == count)
          std::cout << "dfs-cut " << sc.kind << " " << sc.spec << " " << count << "\n";
      }
    }
  }
  fclose(out);
  if (hangs >= 2) std::cout << "stopped\n";
  std::cout << "execs " << execs << " distinct " << distinct << "\n";
  return 0;
}
}  // namespace driver
