// Monitor for identifier derivation: the real functions versus a model.
#include "genpybind/string_utils.h"

#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <string>
#include <vector>

namespace {
unsigned long long n_inputs, n_viol, n_already, n_changed;
std::set<std::string> shapes;

std::string escape(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\' && c != '"')
      o += static_cast<char>(c);
    else {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
  }
  return o;
}
bool head(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
bool body(unsigned char c) { return head(c) || (c >= '0' && c <= '9'); }
bool valid(const std::string &s) {
  if (s.empty() || !head(s[0]))
    return false;
  for (unsigned char c : s)
    if (!body(c))
      return false;
  return true;
}
// Runs of other characters become one underscore; digits at the very start
// cannot start an identifier and belong to the leading run.
std::string model(const std::string &s) {
  std::string o;
  size_t i = 0;
  while (i < s.size()) {
    bool start = o.empty();
    size_t j = i;
    while (j < s.size() && !(start ? head(s[j]) : body(s[j])))
      ++j;
    if (j > i)
      o += '_';
    i = j;
    while (i < s.size() && body(s[i]))
      o += s[i++];
  }
  return o;
}

template <unsigned N> std::string apply(const std::string &s) {
  // exactly sized heap buffer in the non-inline case
  llvm::SmallVector<char, N> v;
  v.reserve(s.size());
  v.append(s.begin(), s.end());
  genpybind::makeValidIdentifier(v);
  return std::string(v.begin(), v.end());
}

void check(const std::string &s) {
  ++n_inputs;
  std::string problem;
  std::string want = model(s);
  std::string got = apply<1>(s);
  char *heap = static_cast<char *>(std::malloc(s.size() ? s.size() : 1));
  std::memcpy(heap, s.data(), s.size());
  bool v = genpybind::isValidIdentifier(llvm::StringRef(heap, s.size()));
  std::free(heap);
  if (v != valid(s))
    problem = std::string("isValidIdentifier says ") + (v ? "true" : "false");
  else if (got != want)
    problem = "becomes '" + got + "' instead of '" + want + "'";
  else if (apply<128>(s) != want)
    problem = "result depends on the buffer size";
  else if (!s.empty() && !genpybind::isValidIdentifier(got))
    problem = "result is not an identifier";
  else if (valid(s) && got != s)
    problem = "valid name changed to '" + got + "'";
  else if (apply<1>(got) != got)
    problem = "not idempotent";
  valid(s) ? ++n_already : ++n_changed;
  if (s.size() < 16) {
    std::string sh;
    for (unsigned char c : s)
      sh += head(c) ? 'a' : body(c) ? '0' : c < 128 ? '.' : 'u';
    shapes.insert(sh);
  }
  if (!problem.empty() && ++n_viol <= 5) {
    std::printf("VIOL {\"input\": \"%s\", \"problem\": \"%s\"}\n", escape(s).c_str(), escape(problem).c_str());
    std::fflush(stdout);
  }
}
} // namespace

int main(int, char **argv) {
  std::string mode = argv[1];
  if (mode == "enum") {
    int len = std::atoi(argv[2]);
    const char small[] = "aZ_09.: \xc3";
    size_t na = sizeof small - 1;
    for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d) {
        std::string s{static_cast<char>(c), static_cast<char>(d)};
        check(s);
      }
    for (int c = 0; c < 256; ++c) {
      check(std::string(1, static_cast<char>(c)));
      check(std::string("x") + static_cast<char>(c) + "y");
    }
    for (int l = 0; l <= len; ++l) {
      std::string s(l, 'a');
      std::vector<size_t> idx(l, 0);
      for (;;) {
        for (int i = 0; i < l; ++i)
          s[i] = small[idx[i]];
        check(s);
        int p = l - 1;
        while (p >= 0 && ++idx[p] == na)
          idx[p--] = 0;
        if (p < 0)
          break;
      }
    }
  } else {
    std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
    long n = std::atol(argv[3]);
    for (long i = 0; i < n; ++i) {
      std::string s;
      size_t len = rng() % 8 ? rng() % 24 : rng() % 400;
      for (size_t k = 0; k < len; ++k) {
        switch (rng() % 4) {
        case 0: s += static_cast<char>(rng() % 256); break;
        case 1: s += "<>, :*&()-.+ "[rng() % 13]; break;
        default: s += "abcXYZ_0123456789"[rng() % 17]; break;
        }
      }
      check(s);
    }
  }
  std::printf("STAT {\"inputs\": %llu, \"already_valid\": %llu, \"changed\": %llu, \"shapes\": %zu, \"violations\": %llu}\n",
              n_inputs, n_already, n_changed, shapes.size(), n_viol);
}
