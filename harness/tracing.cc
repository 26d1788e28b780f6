// Multiplications in a build that traces. The program's own record of the
// calls goes to a file of its own; the trace is written when it exits.
//   P paths         enable these paths
//   T n             at most n threads
//   X               forget cached operands
//   N               a new context
//   M ty b1 r c ord st zp cp  b2 r c ord st zp cp  ord st zp
//                   product of two constant matrices
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "ruy/ruy.h"

static FILE* g_out;
static std::unique_ptr<ruy::Context> g_ctx;

template <typename T>
std::vector<T>& Buffer(int b, std::size_t n, T x) {
  static std::map<std::pair<int, std::size_t>, std::vector<T>> all;
  auto& v = all[{b, n}];
  if (v.empty()) v.assign(n, x);
  return v;
}

struct View {
  int b, rows, cols, ord, st, zp, cp;
  void Read(std::istringstream& in) { in >> b >> rows >> cols >> ord >> st >> zp >> cp; }
};

template <typename T>
void Set(const View& v, ruy::Matrix<T>* m) {
  m->mutable_layout()->set_rows(v.rows);
  m->mutable_layout()->set_cols(v.cols);
  m->mutable_layout()->set_order(v.ord ? ruy::Order::kRowMajor : ruy::Order::kColMajor);
  m->mutable_layout()->set_stride(v.st);
  m->set_zero_point(static_cast<T>(v.zp));
  m->set_cache_policy(static_cast<ruy::CachePolicy>(v.cp));
}

template <typename TL, typename TR, typename TA, typename TD>
void Mul(const View& l, const View& r, View d) {
  d.rows = l.rows;
  d.cols = r.cols;
  auto size = [](const View& v) { return static_cast<std::size_t>(v.st) * (v.ord ? v.rows : v.cols); };
  // operands: constant, value given by the buffer's number
  auto& bl = Buffer<TL>(l.b, size(l), static_cast<TL>(l.b % 5 + 1));
  auto& br = Buffer<TR>(r.b, size(r), static_cast<TR>(r.b % 5 + 1));
  std::vector<TD> bd(size(d), static_cast<TD>(77));
  ruy::Matrix<TL> ml;
  ruy::Matrix<TR> mr;
  ruy::Matrix<TD> md;
  Set(l, &ml);
  Set(r, &mr);
  Set(d, &md);
  ml.set_data(bl.data());
  mr.set_data(br.data());
  md.set_data(bd.data());
  ruy::MulParams<TA, TD> p;
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(ml, mr, p, g_ctx.get(), &md);
  long lo = 1L << 40, hi = -(1L << 40);
  for (int i = 0; i < d.rows; i++)
    for (int j = 0; j < d.cols; j++) {
      long x = static_cast<long>(bd[d.ord ? static_cast<std::size_t>(i) * d.st + j : static_cast<std::size_t>(j) * d.st + i]);
      if (x < lo) lo = x;
      if (x > hi) hi = x;
    }
  fprintf(g_out, "{\"k\":\"call\",\"x\":[%d,%d],\"lo\":%ld,\"hi\":%ld}\n", l.b % 5 + 1, r.b % 5 + 1, lo, hi);
}

int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]);
  g_out = fopen(argv[2], "w");
  if (!in || !g_out) return 3;
  g_ctx.reset(new ruy::Context);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string op;
    ss >> op;
    int x = 0;
    if (op == "P") {
      ss >> x;
      g_ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(x));
    } else if (op == "T") {
      ss >> x;
      g_ctx->set_max_num_threads(x);
    } else if (op == "X") {
      g_ctx->ClearPrepackedCache();
    } else if (op == "N") {
      g_ctx.reset();
      g_ctx.reset(new ruy::Context);
    } else if (op == "M") {
      View l, r, d;
      ss >> x;
      l.Read(ss);
      r.Read(ss);
      ss >> d.ord >> d.st >> d.zp;
      d.b = 0;
      d.cp = 0;
      if (x == 0) Mul<float, float, float, float>(l, r, d);
      if (x == 1) Mul<std::int8_t, std::int8_t, std::int32_t, std::int32_t>(l, r, d);
      if (x == 2) Mul<std::uint8_t, std::uint8_t, std::int32_t, std::int32_t>(l, r, d);
      if (x == 3) Mul<double, double, double, double>(l, r, d);
      if (x == 4) Mul<std::int16_t, std::int8_t, std::int32_t, std::int32_t>(l, r, d);
    }
  }
  g_ctx.reset();
  fclose(g_out);
  return 0;
}
