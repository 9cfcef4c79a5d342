// Monitor for the annotation parser: every input is parsed by the real code
// (from an exactly sized heap buffer) and by an independent reference parser;
// results, error kind, error token and its position have to agree.
#include "genpybind/annotations/annotation.h"
#include "genpybind/annotations/literal_value.h"
#include "genpybind/annotations/parser.h"

#include <llvm/Support/Error.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

using namespace genpybind::annotations;

namespace {

struct Arg {
  char kind; // s u b d
  std::string text;
  bool operator==(const Arg &o) const { return kind == o.kind && text == o.text; }
};
struct Ann {
  std::string name;
  std::vector<Arg> args;
  bool operator==(const Ann &o) const { return name == o.name && args == o.args; }
};
struct Outcome {
  std::vector<Ann> anns;
  int error = -1; // 0 invalid token, 1 missing paren, 2 invalid annotation
  std::string token;
  long position = -1;
};

const char *const kNames[] = {
    "expose_as", "hidden", "visible", "arithmetic", "export_values",
    "getter_for", "setter_for", "dynamic_attr", "hide_base", "holder_type",
    "inline_base", "implicit_conversion", "keep_alive", "noconvert", "required",
    "return_value_policy", "manual", "postamble", "module", "only_expose_in",
    "expose_here", "encourage", "readonly"};

// ---- reference: scan into lexemes first, then a state machine over them ----
struct Lexeme {
  char kind; // i(dentifier) l(iteral) ( ) , e(of) x(invalid)
  std::string text;
  size_t pos;
  Arg value;
};

std::vector<Lexeme> scan(const std::string &s) {
  std::vector<Lexeme> out;
  size_t i = 0, n = s.size();
  auto ident = [](unsigned char c) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9');
  };
  while (true) {
    while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\f' || s[i] == '\v'))
      ++i;
    if (i == n) {
      out.push_back({'e', "", n, {}});
      return out;
    }
    unsigned char c = s[i];
    if (c == '(' || c == ')' || c == ',') {
      out.push_back({static_cast<char>(c), s.substr(i, 1), i, {}});
      ++i;
    } else if (c >= '0' && c <= '9') {
      size_t j = i;
      unsigned long long v = 0;
      bool over = false;
      while (j < n && s[j] >= '0' && s[j] <= '9') {
        v = v * 10 + static_cast<unsigned>(s[j] - '0');
        if (v > 0xffffffffULL) {
          over = true;
          v = 0xffffffffULL;
        }
        ++j;
      }
      Lexeme l{over ? 'x' : 'l', s.substr(i, j - i), i, {'u', std::to_string(v)}};
      out.push_back(l);
      i = j;
    } else if (c == '"') {
      size_t j = i + 1;
      bool closed = false;
      while (j < n) {
        if (s[j] == '\\') {
          j += 2;
          continue;
        }
        if (s[j] == '"') {
          closed = true;
          break;
        }
        ++j;
      }
      if (closed) {
        out.push_back({'l', s.substr(i, j + 1 - i), i, {'s', s.substr(i + 1, j - i - 1)}});
        i = j + 1;
      } else {
        out.push_back({'x', s.substr(i), i, {}});
        i = n;
      }
    } else if (ident(c)) {
      size_t j = i;
      while (j < n && ident(s[j]))
        ++j;
      std::string t = s.substr(i, j - i);
      Arg a{'s', t};
      if (t == "true" || t == "false")
        a.kind = 'b';
      if (t == "default")
        a.kind = 'd';
      out.push_back({'i', t, i, a});
      i = j;
    } else {
      out.push_back({'x', s.substr(i, 1), i, {}});
      ++i;
    }
  }
}

Outcome reference(const std::string &s) {
  std::vector<Lexeme> toks = scan(s);
  Outcome r;
  size_t k = 0;
  auto fail = [&](int kind, const Lexeme &l) {
    r.error = kind;
    r.token = l.text;
    r.position = static_cast<long>(l.pos);
    return r;
  };
  static const std::set<std::string> names(std::begin(kNames), std::end(kNames));
  for (;;) {
    if (toks[k].kind == 'e')
      return r;
    if (toks[k].kind != 'i')
      return fail(0, toks[k]);
    if (names.count(toks[k].text) == 0)
      return fail(2, toks[k]);
    Ann a{toks[k].text, {}};
    ++k;
    if (toks[k].kind == '(') {
      ++k;
      while (toks[k].kind == 'i' || toks[k].kind == 'l') {
        a.args.push_back(toks[k].value);
        ++k;
        if (toks[k].kind != ',')
          break;
        ++k;
      }
      if (toks[k].kind != ')')
        return fail(toks[k].kind == 'x' ? 0 : 1, toks[k]);
      ++k;
    }
    r.anns.push_back(a);
    if (toks[k].kind == ',') {
      ++k;
      continue;
    }
    if (toks[k].kind == 'e')
      return r;
    return fail(0, toks[k]);
  }
}

// ---- the real code ----
std::vector<Ann> convert(const Parser::Annotations &anns, std::string &problem) {
  std::vector<Ann> out;
  for (const Annotation &a : anns) {
    Ann x{toString(a.getKind()).str(), {}};
    for (const LiteralValue &v : a.getArguments()) {
      int kinds = v.isNothing() + v.isString() + v.isUnsigned() + v.isBoolean() + v.isDefault();
      if (kinds != 1)
        problem = "argument has not exactly one kind";
      if (v.isString())
        x.args.push_back({'s', v.getString()});
      else if (v.isUnsigned())
        x.args.push_back({'u', std::to_string(v.getUnsigned())});
      else if (v.isBoolean())
        x.args.push_back({'b', v.getBoolean() ? "true" : "false"});
      else if (v.isDefault())
        x.args.push_back({'d', "default"});
      else
        x.args.push_back({'?', "nothing"});
    }
    out.push_back(x);
  }
  return out;
}

Outcome real(const std::string &s, std::string &problem) {
  char *buffer = static_cast<char *>(std::malloc(s.size() ? s.size() : 1));
  std::memcpy(buffer, s.data(), s.size());
  Outcome r;
  {
    Parser::Annotations anns;
    // Present annotations have to be kept.
    anns.emplace_back(AnnotationKind(AnnotationKind::Hidden));
    int errors = 0;
    llvm::handleAllErrors(
        Parser::parseAnnotations(llvm::StringRef(buffer, s.size()), anns),
        [&](const Parser::Error &e) {
          ++errors;
          r.error = static_cast<int>(e.getKind());
          r.token = e.getToken().str();
          const char *p = e.getToken().data();
          if (!e.getToken().empty())
            r.position = (p >= buffer && p <= buffer + s.size()) ? p - buffer : -2;
        });
    if (errors > 1)
      problem = "more than one error";
    r.anns = convert(anns, problem);
    if (r.anns.empty() || !(r.anns.front() == Ann{"hidden", {}}))
      problem = "annotations present before were lost";
    else
      r.anns.erase(r.anns.begin());
    // The other entry point has to agree.
    auto expected = Parser::parseAnnotations(llvm::StringRef(buffer, s.size()));
    if (static_cast<bool>(expected) != (r.error == -1))
      problem = "both entry points disagree about success";
    if (expected) {
      if (!(convert(*expected, problem) == r.anns))
        problem = "both entry points disagree";
    } else {
      llvm::consumeError(expected.takeError());
    }
  }
  std::free(buffer);
  return r;
}

std::string printed(const std::vector<Ann> &anns) {
  std::string o;
  for (const Ann &a : anns) {
    o += a.name + "[";
    for (const Arg &x : a.args)
      o += std::string(1, x.kind) + ":" + x.text + ";";
    o += "]";
  }
  return o;
}

std::string escape(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\' && c != '"')
      o += static_cast<char>(c);
    else {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
  }
  return o;
}

unsigned long long n_inputs, n_valid, n_err[3], n_annotations, n_roundtrip, n_viol;
std::set<std::string> shapes;

bool plain(const std::vector<Ann> &anns) {
  for (const Ann &a : anns)
    for (const Arg &x : a.args)
      for (unsigned char c : x.text)
        if (c < 32 || c >= 127 || c == '\\' || c == '"')
          return false;
  return true;
}

bool check(const std::string &s) {
  ++n_inputs;
  std::string problem;
  Outcome want = reference(s), got = real(s, problem);
  if (problem.empty()) {
    if (!(want.anns == got.anns))
      problem = "annotations differ: expected " + printed(want.anns) + " observed " + printed(got.anns);
    else if (want.error != got.error)
      problem = "error kind differs: expected " + std::to_string(want.error) + " observed " + std::to_string(got.error);
    else if (want.error != -1 && want.token != got.token)
      problem = "error names '" + got.token + "' instead of '" + want.token + "'";
    else if (want.error != -1 && !want.token.empty() && want.position != got.position)
      problem = "error token is at " + std::to_string(got.position) + " instead of " + std::to_string(want.position);
  }
  if (want.error == -1)
    ++n_valid;
  else
    ++n_err[want.error];
  n_annotations += want.anns.size();
  if (shapes.size() < 2000000) {
    std::string shape;
    for (const Lexeme &l : scan(s))
      shape += l.kind == 'l' ? l.value.kind : l.kind;
    if (shape.size() < 24)
      shapes.insert(shape);
  }
  if (problem.empty() && plain(want.anns)) {
    // print . parse = identity
    ++n_roundtrip;
    std::string text;
    Parser::Annotations anns;
    llvm::consumeError(Parser::parseAnnotations(s, anns));
    for (const Annotation &a : anns) {
      if (!text.empty())
        text += ", ";
      text += toString(a);
    }
    std::string p2;
    Outcome again = real(text, p2);
    if (again.error != -1 || !(again.anns == want.anns))
      problem = "printing and parsing again changes the annotations: " + text;
  }
  if (problem.empty())
    return true;
  if (++n_viol <= 5)
    std::printf("VIOL {\"input\": \"%s\", \"problem\": \"%s\"}\n", escape(s).c_str(), escape(problem).c_str());
  std::fflush(stdout);
  return false;
}

} // namespace

#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (!check(std::string(reinterpret_cast<const char *>(data), size)))
    std::abort();
  return 0;
}
#else
int main(int argc, char **argv) {
  // c12 enum LEN ALPHABET | c12 random SEED N | c12 read  (one hex string per line)
  std::string mode = argv[1];
  std::vector<std::string> atoms = {
      "visible", "expose_as", "keep_alive", "nope", "true", "false", "default", "x1_", "\"s\"",
      "\"a\\\"b\"", "\"", "7", "4294967295", "4294967296", "(", ")", ",", " ", "\t", "\n", ".", "-",
      "\\", std::string(1, '\0'), "\xe2\x97\x8a", "\xff", "\"\"", "00", "_", "\v\f", "\r"};
  if (mode == "enum") {
    int len = std::atoi(argv[2]);
    size_t na = std::strtoul(argv[3], nullptr, 10);
    static const char *small[] = {"visible", "nope", "true", "\"s\"", "7", "(", ")", ",", ".", " ", "default", "\"", "4294967296", "\n", "keep_alive", "\\"};
    std::vector<size_t> idx;
    for (int l = 0; l <= len; ++l) {
      idx.assign(l, 0);
      for (;;) {
        std::string s;
        for (size_t i : idx) {
          s += small[i];
        }
        check(s);
        if (l > 1) {
          std::string spaced;
          for (size_t i : idx)
            spaced += std::string(small[i]) + " ";
          check(spaced);
        }
        int p = l - 1;
        while (p >= 0 && ++idx[p] == na)
          idx[p--] = 0;
        if (p < 0)
          break;
      }
    }
  } else if (mode == "random") {
    std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
    long n = std::atol(argv[3]);
    auto pick = [&](size_t k) { return static_cast<size_t>(rng() % k); };
    std::vector<std::string> pool;
    // Words that nearly are a keyword.
    auto near = [&](std::string w) {
      size_t at = pick(w.size());
      switch (pick(10)) {
      case 0: w[0] = static_cast<char>(w[0] & ~32); break;
      case 1: for (char &c : w) if (c != '_') c = static_cast<char>(c & ~32); break;
      case 2: w.erase(at, 1); if (w.empty()) w = "x"; break;
      case 3: w.insert(at, 1, w[at]); break;
      case 4: w += "_1sX"[pick(4)]; break;
      default: break;
      }
      return w;
    };
    auto arg = [&]() -> std::string {
      switch (pick(8)) {
      case 0: return near("true");
      case 1: return near("false");
      case 2: return near("default");
      case 3: return std::to_string(rng() >> pick(64));
      case 4: {
        std::string s = "\"";
        for (size_t i = pick(12); i > 0; --i) {
          char c = static_cast<char>(pick(4) ? 32 + pick(95) : pick(256));
          if (c == '"' || c == '\\')
            s += '\\';
          s += c;
        }
        return s + "\"";
      }
      default: {
        std::string s(1, "abcXYZ_"[pick(7)]);
        for (size_t i = pick(9); i > 0; --i)
          s += "abcXYZ_019"[pick(10)];
        return s;
      }
      }
    };
    auto ws = [&]() { return pick(3) ? std::string() : std::string(1, " \t\f\v"[pick(4)]); };
    auto ann = [&]() {
      std::string s = kNames[pick(sizeof kNames / sizeof *kNames)];
      if (pick(6) == 0)
        s = near(s);
      if (pick(3)) {
        s += ws() + "(" + ws();
        size_t k = pick(4);
        for (size_t i = 0; i < k; ++i)
          s += (i ? ws() + "," + ws() : "") + arg();
        if (k && !pick(6))
          s += ",";
        s += ws() + ")";
      }
      return s;
    };
    for (long i = 0; i < n; ++i) {
      std::string s;
      switch (pick(5)) {
      case 0: // atoms
        for (size_t k = pick(12); k > 0; --k)
          s += atoms[pick(atoms.size())];
        break;
      case 1: // bytes
        for (size_t k = pick(20); k > 0; --k)
          s += static_cast<char>(pick(256));
        break;
      default: { // grammar, possibly mutated
        size_t k = pick(5);
        for (size_t j = 0; j < k; ++j)
          s += (j ? ws() + "," + ws() : ws()) + ann();
        if (k && !pick(6))
          s += ",";
        s += ws();
        for (size_t m = pick(3); m > 0 && !s.empty(); --m) {
          size_t p = pick(s.size());
          switch (pick(4)) {
          case 0: s.erase(p, 1 + pick(3)); break;
          case 1: s.insert(p, atoms[pick(atoms.size())]); break;
          case 2: s[p] = static_cast<char>(pick(256)); break;
          default: s = s.substr(0, p); break;
          }
        }
        // occasionally very long
        if (!pick(2000))
          while (s.size() < 200000)
            s += "," + ann();
        break;
      }
      }
      check(s);
    }
  } else {
    char line[1 << 16];
    while (std::fgets(line, sizeof line, stdin)) {
      std::string s;
      for (char *p = line; p[0] && p[1] && p[0] != '\n'; p += 2) {
        char b[3] = {p[0], p[1], 0};
        s += static_cast<char>(std::strtoul(b, nullptr, 16));
      }
      check(s);
    }
  }
  std::printf("STAT {\"inputs\": %llu, \"valid\": %llu, \"invalid_token\": %llu, \"missing_paren\": %llu, "
              "\"invalid_annotation\": %llu, \"annotations\": %llu, \"roundtrips\": %llu, \"token_shapes\": %zu, \"violations\": %llu}\n",
              n_inputs, n_valid, n_err[0], n_err[1], n_err[2], n_annotations, n_roundtrip, shapes.size(), n_viol);
  return 0;
}
#endif
