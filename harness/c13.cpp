// Monitor for LiteralValue: random and enumerated operation histories over a
// few slots, compared with a value model after every step.
#include "genpybind/annotations/literal_value.h"

#include <llvm/ADT/SmallVector.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

using genpybind::annotations::LiteralValue;

namespace {
long g_live;
}
void *operator new(std::size_t n) {
  ++g_live;
  return std::malloc(n ? n : 1);
}
void operator delete(void *p) noexcept {
  if (p) {
    --g_live;
    std::free(p);
  }
}
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }

namespace {

struct Model {
  char kind = 'n'; // n s u b d, '*' = valid but unspecified
  std::string text;
};

std::string escape(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\' && c != '"')
      o += static_cast<char>(c);
    else {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
  }
  return o;
}

unsigned long long n_histories, n_ops, n_checks, n_viol;
std::set<std::string> transitions;

std::string expectPrinted(const Model &m) {
  switch (m.kind) {
  case 'n': return "nothing";
  case 'd': return "default";
  case 's': {
    // printable characters are shown verbatim
    return "\"" + m.text + "\"";
  }
  default: return m.text;
  }
}

bool printable(const std::string &s) {
  for (unsigned char c : s)
    if (c < 32 || c >= 127 || c == '"' || c == '\\')
      return false;
  return true;
}

const int kSlots = 3;

struct World {
  std::unique_ptr<LiteralValue> slot[kSlots];
  Model model[kSlots];
  std::string trace;
  std::string problem;
  std::vector<std::string> seen;

  World() {
    for (auto &s : slot)
      s = std::make_unique<LiteralValue>();
  }

  void fail(const std::string &what) {
    if (problem.empty())
      problem = what + " after" + trace;
  }

  // Replace an unspecified (moved-from) model by what is observed, after
  // checking that it is one consistent value.
  static Model observe(const LiteralValue &v) {
    if (v.isString())
      return {'s', v.getString()};
    if (v.isUnsigned())
      return {'u', std::to_string(v.getUnsigned())};
    if (v.isBoolean())
      return {'b', v.getBoolean() ? "true" : "false"};
    if (v.isDefault())
      return {'d', ""};
    return {'n', ""};
  }

  void checkAll() {
    for (int i = 0; i < kSlots; ++i) {
      const LiteralValue &v = *slot[i];
      ++n_checks;
      int kinds = v.isNothing() + v.isString() + v.isUnsigned() + v.isBoolean() + v.isDefault();
      if (kinds != 1)
        fail("value has not exactly one kind");
      if (v.hasValue() == v.isNothing() || static_cast<bool>(v) != v.hasValue())
        fail("hasValue/operator bool disagree with isNothing");
      using K = LiteralValue::Kind;
      if (v.isa(K::Nothing) != v.isNothing() || v.isa(K::String) != v.isString() ||
          v.isa(K::Unsigned) != v.isUnsigned() || v.isa(K::Boolean) != v.isBoolean() ||
          v.isa(K::Default) != v.isDefault())
        fail("isa() disagrees with the predicates");
      Model o = observe(v);
      if (model[i].kind == '*')
        model[i] = o;
      if (o.kind != model[i].kind || o.text != model[i].text)
        fail("slot " + std::to_string(i) + " holds " + o.kind + ":" + o.text + " instead of " + model[i].kind + ":" + model[i].text);
      if (o.kind != 's' || printable(o.text)) {
        std::string p = toString(v), q;
        llvm::raw_string_ostream os(q);
        v.print(os);
        std::ostringstream r;
        PrintTo(v, &r);
        if (p != expectPrinted(model[i]) || os.str() != p || r.str() != p)
          fail("printed as " + p);
      } else {
        (void)toString(v);
      }
    }
    for (int i = 0; i < kSlots; ++i)
      for (int j = 0; j < kSlots; ++j) {
        bool eq = model[i].kind == model[j].kind && model[i].text == model[j].text;
        if ((*slot[i] == *slot[j]) != eq || (*slot[i] != *slot[j]) == eq)
          fail("equality of slots " + std::to_string(i) + "," + std::to_string(j) + " is not " + (eq ? "true" : "false"));
      }
  }

  void op(unsigned code, unsigned a, unsigned b, unsigned val) {
    ++n_ops;
    static const std::string strings[] = {"", "x", "hello", std::string(40, 'q'), std::string("a\0b", 3),
                                          std::string("a\0c", 3), "true", "7", "default", "nothing", "quote\"back\\"};
    static const unsigned ints[] = {0u, 1u, 7u, 4294967295u, 256u};
    const std::string &str = strings[val % (sizeof strings / sizeof *strings)];
    LiteralValue &x = *slot[a];
    Model &mx = model[a];
    char before = mx.kind, other = model[b].kind;
    switch (code) {
    case 0: x.setNothing(); mx = {'n', ""}; break;
    case 1: x.setString(str); mx = {'s', str}; break;
    case 2: x.setUnsigned(ints[val % 5]); mx = {'u', std::to_string(ints[val % 5])}; break;
    case 3: x.setBoolean(val % 2); mx = {'b', val % 2 ? "true" : "false"}; break;
    case 4: x.setDefault(); mx = {'d', ""}; break;
    case 5: x = *slot[b]; mx = Model(model[b]); break;
    case 6: // move assignment
      if (a == b) {
        LiteralValue &alias = x;
        x = std::move(alias);
      } else {
        Model m = model[b];
        x = std::move(*slot[b]);
        mx = m;
        model[b] = {'*', ""};
      }
      break;
    case 7: { // copy construct
      auto fresh = std::make_unique<LiteralValue>(*slot[b]);
      Model m = model[b];
      slot[a] = std::move(fresh);
      mx = m;
      break;
    }
    case 8: { // move construct
      Model m = model[b];
      auto fresh = std::make_unique<LiteralValue>(std::move(*slot[b]));
      if (a != b)
        model[b] = {'*', ""};
      slot[a] = std::move(fresh);
      mx = m;
      break;
    }
    case 9: { // factories
      switch (val % 5) {
      case 0: x = LiteralValue::createString(str); mx = {'s', str}; break;
      case 1: x = LiteralValue::createUnsigned(ints[val % 5]); mx = {'u', std::to_string(ints[val % 5])}; break;
      case 2: x = LiteralValue::createBoolean(val % 2); mx = {'b', val % 2 ? "true" : "false"}; break;
      case 3: x = LiteralValue::createDefault(); mx = {'d', ""}; break;
      default: x = LiteralValue(); mx = {'n', ""}; break;
      }
      break;
    }
    case 10: { // swap
      using std::swap;
      swap(x, *slot[b]);
      std::swap(mx, model[b]);
      break;
    }
    case 11: { // through a growing vector, as in Annotation::Arguments
      llvm::SmallVector<LiteralValue, 1> vec;
      for (unsigned i = 0; i < 2 + val % 5; ++i)
        vec.push_back(i % 2 ? *slot[b] : x);
      std::vector<LiteralValue> copy(vec.begin(), vec.end());
      copy.insert(copy.begin(), x);
      copy.erase(copy.begin());
      Model m = vec.size() % 2 ? mx : model[b];
      if (vec.size() % 2 == 0)
        m = model[b];
      LiteralValue last = copy.back();
      x = std::move(last);
      mx = m;
      break;
    }
    case 12: { // destroy and re-create
      slot[a] = std::make_unique<LiteralValue>();
      mx = {'n', ""};
      break;
    }
    case 13: // set from own content
      if (x.isString()) {
        Model m = mx;
        x.setString(llvm::StringRef(x.getString()).drop_front(val % 2 && !m.text.empty() ? 1 : 0));
        mx.text = m.text.substr(val % 2 && !m.text.empty() ? 1 : 0);
      }
      break;
    case 14: // set from another slot's content
      if (slot[b]->isString()) {
        Model m = model[b];
        x.setString(slot[b]->getString());
        mx = m;
      }
      break;
    }
    trace += " " + std::to_string(code) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(val) + ")";
    checkAll();
    seen.push_back(std::string(1, before) + other + (a == b ? '=' : '!') + std::to_string(code) + mx.kind);
  }
};

const unsigned kOps = 15;

// Runs one history and checks that nothing it allocated stays behind.
template <class F> void history(F f) {
  ++n_histories;
  std::string problem, trace;
  std::vector<std::string> seen;
  long live = 0;
  {
    long before = g_live;
    long extra = 0;
    {
      World w;
      f(w);
      long b = g_live;
      problem = w.problem;
      trace = w.trace;
      seen = w.seen;
      extra = g_live - b;
    }
    live = g_live - extra - before;
  }
  if (problem.empty() && live != 0)
    problem = std::to_string(live) + " allocations left after" + trace;
  for (std::string &t : seen)
    transitions.insert(t);
  if (!problem.empty() && ++n_viol <= 5) {
    std::printf("VIOL {\"input\": \"%s\", \"problem\": \"%s\"}\n", escape(trace).c_str(), escape(problem).c_str());
    std::fflush(stdout);
  }
}

} // namespace

int main(int, char **argv) {
  std::string mode = argv[1];
  { // initialize statics
    World w;
    for (unsigned c = 0; c < kOps; ++c)
      w.op(c, 0, 1, 1);
  }
  n_ops = n_checks = 0;
  if (mode == "enum") {
    // all histories: one op to prepare each of two slots, then all pairs
    for (unsigned p = 0; p < 10; ++p)
      for (unsigned q = 0; q < 10; ++q)
        for (unsigned c1 = 0; c1 < kOps; ++c1)
          for (unsigned ab = 0; ab < 4; ++ab)
            for (unsigned c2 = 0; c2 < kOps; ++c2)
              for (unsigned ab2 = 0; ab2 < 4; ++ab2) {
                history([&](World &w) {
                  w.op(p % 5, 0, 0, p);
                  w.op(q % 5, 1, 1, q + 1);
                  w.op(c1, ab / 2, ab % 2, 3);
                  w.op(c2, ab2 / 2, ab2 % 2, 2);
                });
              }
  } else {
    std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
    long n = std::atol(argv[3]);
    for (long i = 0; i < n; ++i) {
      history([&](World &w) {
        for (unsigned k = 4 + rng() % 40; k > 0 && w.problem.empty(); --k) {
          unsigned c = rng() % kOps, a = rng() % kSlots, b = rng() % kSlots, v = rng() % 1000;
          w.op(c, a, b, v);
        }
      });
    }
  }
  std::printf("STAT {\"histories\": %llu, \"operations\": %llu, \"state_checks\": %llu, \"distinct_transitions\": %zu, \"violations\": %llu}\n",
              n_histories, n_ops, n_checks, transitions.size(), n_viol);
  return 0;
}
