// Block maps and traversals.
#include "ruy/block_map.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/side_pair.h"
#define SCRIPT_LIMIT_S 300
#include "script.h"

static void Seq(const ruy::BlockMap& m, int n) {
  std::string l, r;
  for (int i = 0; i < n; i++) {
    ruy::SidePair<int> b;
    ruy::GetBlockByIndex(m, i, &b);
    if (i) l += ",", r += ",";
    l += std::to_string(b[ruy::Side::kLhs]);
    r += std::to_string(b[ruy::Side::kRhs]);
  }
  fprintf(g_out, "\"bl\":[%s],\"br\":[%s]", l.c_str(), r.c_str());
}
// Extents of blocks: of all of them, or of those in windows [from, from+len).
static void Coords(const ruy::BlockMap& m, ruy::Side side, const char* tag, unsigned seed) {
  const int n = ruy::NumBlocksPerSide(side, m);
  const int w = 300;
  std::vector<int> from;
  if (n <= 6000) {
    from.push_back(0);
  } else {
    from.push_back(0);
    for (int k = 1; k <= 8; k++) {
      seed = seed * 1664525u + 1013904223u;
      from.push_back((int)((long)(n - 2 * w) * k / 9) + (int)(seed % w));
    }
    from.push_back(n - w);
  }
  fprintf(g_out, "\"n%s\":%d,\"w%s\":[", tag, n, tag);
  for (std::size_t k = 0; k < from.size(); k++) {
    const int to = n <= 6000 ? n : from[k] + w;
    std::string s, e;
    for (int i = from[k]; i < to; i++) {
      int a, b;
      ruy::GetBlockMatrixCoords(side, m, i, &a, &b);
      // the two-sided query agrees
      ruy::SidePair<int> blk{0, 0}, st, en;
      blk[side] = i;
      ruy::GetBlockMatrixCoords(m, blk, &st, &en);
      if (st[side] != a || en[side] != b) a = -7;
      if (i > from[k]) s += ",", e += ",";
      s += std::to_string(a);
      e += std::to_string(b);
    }
    fprintf(g_out, "%s{\"from\":%d,\"s\":[%s],\"e\":[%s]}", k ? "," : "", from[k], s.c_str(), e.c_str());
  }
  fprintf(g_out, "],");
}

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    Emit("{\"k\":\"S\"}");
  } else if (op == "M") {
    int rows, cols, depth, kr, kc, ls, rs, thr, local, last, limit;
    in >> rows >> cols >> depth >> kr >> kc >> ls >> rs >> thr >> local >> last >> limit;
    ruy::CpuCacheParams p;
    p.local_cache_size = local;
    p.last_level_cache_size = last;
    ruy::BlockMap m;
    const bool lin = ruy::IsObviouslyLinearTraversal(rows, cols, depth, ls, rs, p);
    ruy::MakeBlockMap(rows, cols, depth, kr, kc, ls, rs, thr, p, &m);
    const int n = ruy::NumBlocks(m);
    fprintf(g_out, "{\"k\":\"map\",\"rows\":%d,\"cols\":%d,\"kr\":%d,\"kc\":%d,\"req\":%d,\"tc\":%d,\"n\":%d,\"lin\":%d,",
            rows, cols, kr, kc, thr, m.thread_count, n, lin);
    Coords(m, ruy::Side::kLhs, "l", rows);
    Coords(m, ruy::Side::kRhs, "r", cols);
    fprintf(g_out, "\"full\":%d,", n <= limit);
    Seq(m, n <= limit ? n : 0);
    Emit("}");
  } else if (op == "C" || op == "D") {
    // D: too large to be logged; counts how many blocks were visited
    int a, rl, rr, ord;
    in >> a >> rl >> rr >> ord;
    ruy::BlockMap m;
    memset(&m, 0, sizeof m);
    m.thread_count = 1;
    m.num_blocks_base_log2 = a;
    m.rectangularness_log2[ruy::Side::kLhs] = rl;
    m.rectangularness_log2[ruy::Side::kRhs] = rr;
    m.traversal_order = static_cast<ruy::BlockMapTraversalOrder>(ord);
    const int n = ruy::NumBlocks(m);
    if (op == "D") {
      const std::size_t nl = ruy::NumBlocksPerSide(ruy::Side::kLhs, m), nr = ruy::NumBlocksPerSide(ruy::Side::kRhs, m);
      std::vector<bool> seen(nl * nr);
      int distinct = 0, outside = 0;
      for (int i = 0; i < n; i++) {
        ruy::SidePair<int> b;
        ruy::GetBlockByIndex(m, i, &b);
        const std::size_t l = b[ruy::Side::kLhs], r = b[ruy::Side::kRhs];
        if (l >= nl || r >= nr) {
          outside++;
        } else if (!seen[l * nr + r]) {
          seen[l * nr + r] = true;
          distinct++;
        }
      }
      Emit("{\"k\":\"huge\",\"nl\":%d,\"nr\":%d,\"n\":%d,\"distinct\":%d,\"outside\":%d}", (int)nl, (int)nr, n, distinct,
           outside);
      return;
    }
    fprintf(g_out, "{\"k\":\"curve\",\"nl\":%d,\"nr\":%d,\"n\":%d,\"lin\":%d,", ruy::NumBlocksPerSide(ruy::Side::kLhs, m),
            ruy::NumBlocksPerSide(ruy::Side::kRhs, m), n, m.traversal_order == ruy::BlockMapTraversalOrder::kLinear);
    Seq(m, n);
    Emit("}");
  }
}
