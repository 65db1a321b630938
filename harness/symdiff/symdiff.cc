// A small stand-in for the symdiff library (git submodule, absent here):
// expression parser, printer and symbolic derivative.  It deliberately does
// not fold anything while parsing, so that devsim's own evaluator does the work.
#include "parseexpr.hh"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>

namespace Eqo {
class EquationObject {
 public:
  EngineAPI::EqObjType type;
  std::string name;   // model, variable, function or operator
  double value = 0.0;
  std::vector<EqObjPtr> args;
  std::string str;
};
}
using Eqo::EqObjPtr;
using namespace EngineAPI;

namespace {
std::string num(double x)
{
  char b[64];
  for (int p = 6; p <= 17; ++p)
  {
    snprintf(b, sizeof b, "%.*g", p, x);
    if (strtod(b, nullptr) == x)
      break;
  }
  return b;
}

EqObjPtr mk(EqObjType t, const std::string &name, double v, std::vector<EqObjPtr> args)
{
  auto e = std::make_shared<Eqo::EquationObject>();
  e->type = t;
  e->name = name;
  e->value = v;
  e->args = std::move(args);
  std::string &s = e->str;
  auto list = [&](const char *sep) {
    for (size_t i = 0; i < e->args.size(); ++i)
    {
      if (i)
        s += sep;
      s += e->args[i]->str;
    }
  };
  switch (t)
  {
    case CONST_OBJ:
      s = num(v);
      if (v < 0)
        s = "(" + s + ")";
      break;
    case MODEL_OBJ:
    case VARIABLE_OBJ:
      s = name;
      break;
    case ADD_OBJ:
      s = "(";
      list(" + ");
      s += ")";
      break;
    case PRODUCT_OBJ:
      s = "(";
      list(" * ");
      s += ")";
      break;
    case POW_OBJ:
      s = "(";
      list("^");
      s += ")";
      break;
    case BLOGICAL_OBJ:
      s = "(";
      list((" " + name + " ").c_str());
      s += ")";
      break;
    case ULOGICAL_OBJ:
      s = "(" + name;
      list("");
      s += ")";
      break;
    default:
      s = name + "(";
      list(", ");
      s += ")";
      break;
  }
  return e;
}

EqObjPtr cst(double v) { return mk(CONST_OBJ, "", v, {}); }
bool isc(const EqObjPtr &e, double v) { return e->type == CONST_OBJ && e->value == v; }

EqObjPtr add(std::vector<EqObjPtr> a)
{
  std::vector<EqObjPtr> o;
  double c = 0;
  for (auto &x : a)
  {
    if (x->type == CONST_OBJ)
      c += x->value;
    else
      o.push_back(x);
  }
  if (c != 0)
    o.push_back(cst(c));
  if (o.empty())
    return cst(0);
  if (o.size() == 1)
    return o[0];
  return mk(ADD_OBJ, "+", 0, o);
}

EqObjPtr mul(std::vector<EqObjPtr> a)
{
  std::vector<EqObjPtr> o;
  double c = 1;
  for (auto &x : a)
  {
    if (x->type == CONST_OBJ)
      c *= x->value;
    else
      o.push_back(x);
  }
  if (c == 0)
    return cst(0);
  if (c != 1)
    o.insert(o.begin(), cst(c));
  if (o.empty())
    return cst(c);
  if (o.size() == 1)
    return o[0];
  return mk(PRODUCT_OBJ, "*", 0, o);
}

EqObjPtr powr(EqObjPtr a, EqObjPtr b)
{
  if (isc(b, 0))
    return cst(1);
  if (isc(b, 1))
    return a;
  return mk(POW_OBJ, "pow", 0, {a, b});
}

struct Func {
  std::vector<std::string> formal;
  std::vector<EqObjPtr> derivs;
};
std::map<std::string, Func> &funcs()
{
  static std::map<std::string, Func> f;
  return f;
}
ModelListCallback modelcb = nullptr;
DerivativeRule derivrule = nullptr;

EqObjPtr subst(const EqObjPtr &e, const std::map<std::string, EqObjPtr> &m)
{
  if ((e->type == VARIABLE_OBJ) || (e->type == MODEL_OBJ))
  {
    auto it = m.find(e->name);
    return it == m.end() ? e : it->second;
  }
  if (e->args.empty())
    return e;
  std::vector<EqObjPtr> a;
  for (auto &x : e->args)
    a.push_back(subst(x, m));
  if (e->type == ADD_OBJ)
    return add(a);
  if (e->type == PRODUCT_OBJ)
    return mul(a);
  if (e->type == POW_OBJ)
    return powr(a[0], a[1]);
  return mk(e->type, e->name, 0, a);
}

EqObjPtr simp(const EqObjPtr &e) { return subst(e, {}); }

EqObjPtr diff(const EqObjPtr &e, const EqObjPtr &x)
{
  switch (e->type)
  {
    case CONST_OBJ:
    case BLOGICAL_OBJ:
    case ULOGICAL_OBJ:
      return cst(0);
    case VARIABLE_OBJ:
      return cst(e->name == x->name ? 1 : 0);
    case MODEL_OBJ:
      if (e->name == x->name)
        return cst(1);
      return derivrule ? derivrule(e, x) : cst(0);
    case ADD_OBJ:
    {
      std::vector<EqObjPtr> o;
      for (auto &a : e->args)
        o.push_back(diff(a, x));
      return add(o);
    }
    case PRODUCT_OBJ:
    {
      std::vector<EqObjPtr> o;
      for (size_t i = 0; i < e->args.size(); ++i)
      {
        std::vector<EqObjPtr> p;
        for (size_t j = 0; j < e->args.size(); ++j)
          p.push_back(i == j ? diff(e->args[j], x) : e->args[j]);
        o.push_back(mul(p));
      }
      return add(o);
    }
    case POW_OBJ:
    {
      auto &a = e->args[0];
      auto &b = e->args[1];
      auto da = diff(a, x);
      auto db = diff(b, x);
      auto t1 = isc(da, 0) ? cst(0) : mul({b, powr(a, add({b, cst(-1)})), da});
      auto t2 = isc(db, 0) ? cst(0) : mul({e, mk(LOG_OBJ, "log", 0, {a}), db});
      return add({t1, t2});
    }
    case EXPONENT_OBJ:
      return mul({diff(e->args[0], x), e});
    case LOG_OBJ:
      return mul({diff(e->args[0], x), powr(e->args[0], cst(-1))});
    case IF_OBJ:
    {
      auto d = diff(e->args[1], x);
      return isc(d, 0) ? d : mk(IF_OBJ, "if", 0, {e->args[0], d});
    }
    case IFELSE_OBJ:
    {
      auto d1 = diff(e->args[1], x);
      auto d2 = diff(e->args[2], x);
      if (isc(d1, 0) && isc(d2, 0))
        return d1;
      return mk(IFELSE_OBJ, "ifelse", 0, {e->args[0], d1, d2});
    }
    case USERFUNC_OBJ:
    {
      std::vector<EqObjPtr> o;
      const Func &f = funcs().at(e->name);
      std::map<std::string, EqObjPtr> m;
      for (size_t i = 0; i < f.formal.size(); ++i)
        m[f.formal[i]] = e->args[i];
      for (size_t i = 0; i < e->args.size(); ++i)
      {
        auto d = diff(e->args[i], x);
        if (isc(d, 0))
          continue;
        if (f.derivs.empty())
          throw std::runtime_error("derivative of function " + e->name + " is not defined");
        o.push_back(mul({d, subst(f.derivs[i], m)}));
      }
      return add(o);
    }
  }
  return cst(0);
}

struct Parser {
  const std::string &s;
  size_t p = 0;
  std::set<std::string> formals;
  explicit Parser(const std::string &x) : s(x) {}
  [[noreturn]] void fail(const std::string &m) { throw std::runtime_error(m); }
  void ws()
  {
    while (p < s.size() && isspace(static_cast<unsigned char>(s[p])))
      ++p;
  }
  bool eat(const char *t)
  {
    ws();
    size_t n = std::string(t).size();
    if (s.compare(p, n, t) == 0)
    {
      p += n;
      return true;
    }
    return false;
  }
  void need(const char *t)
  {
    if (!eat(t))
      fail(std::string("syntax error, expected ") + t);
  }
  static bool ids(char c) { return isalpha(static_cast<unsigned char>(c)) || c == '_' || c == '$' || (c & 0x80); }
  static bool idc(char c) { return isalnum(static_cast<unsigned char>(c)) || ids(c) || c == '@' || c == ':' || c == '.'; }
  std::string ident()
  {
    ws();
    size_t b = p;
    if (p < s.size() && ids(s[p]))
      while (p < s.size() && idc(s[p]))
        ++p;
    return s.substr(b, p - b);
  }
  EqObjPtr sym(const std::string &n)
  {
    if (n[0] == '$')
      return mk(MODEL_OBJ, n.substr(1), 0, {});
    if (!formals.count(n) && modelcb && modelcb(n))
      return mk(MODEL_OBJ, n, 0, {});
    return mk(VARIABLE_OBJ, n, 0, {});
  }
  EqObjPtr expr() { return orx(); }
  EqObjPtr orx()
  {
    auto a = andx();
    while (eat("||"))
      a = mk(BLOGICAL_OBJ, "||", 0, {a, andx()});
    return a;
  }
  EqObjPtr andx()
  {
    auto a = eqx();
    while (eat("&&"))
      a = mk(BLOGICAL_OBJ, "&&", 0, {a, eqx()});
    return a;
  }
  EqObjPtr eqx()
  {
    auto a = relx();
    for (;;)
    {
      if (eat("=="))
        a = mk(BLOGICAL_OBJ, "==", 0, {a, relx()});
      else if (eat("!="))
        a = mk(ULOGICAL_OBJ, "!", 0, {mk(BLOGICAL_OBJ, "==", 0, {a, relx()})});
      else
        return a;
    }
  }
  EqObjPtr relx()
  {
    auto a = addx();
    for (;;)
    {
      if (eat("<="))
        a = mk(BLOGICAL_OBJ, "<=", 0, {a, addx()});
      else if (eat(">="))
        a = mk(BLOGICAL_OBJ, ">=", 0, {a, addx()});
      else if (eat("<"))
        a = mk(BLOGICAL_OBJ, "<", 0, {a, addx()});
      else if (eat(">"))
        a = mk(BLOGICAL_OBJ, ">", 0, {a, addx()});
      else
        return a;
    }
  }
  EqObjPtr addx()
  {
    std::vector<EqObjPtr> o{mulx()};
    for (;;)
    {
      if (eat("+"))
        o.push_back(mulx());
      else if (eat("-"))
        o.push_back(mk(PRODUCT_OBJ, "*", 0, {cst(-1), mulx()}));
      else
        break;
    }
    return o.size() == 1 ? o[0] : mk(ADD_OBJ, "+", 0, o);
  }
  EqObjPtr mulx()
  {
    std::vector<EqObjPtr> o{unx()};
    for (;;)
    {
      if (eat("*"))
        o.push_back(unx());
      else if (eat("/"))
        o.push_back(mk(POW_OBJ, "pow", 0, {unx(), cst(-1)}));
      else
        break;
    }
    return o.size() == 1 ? o[0] : mk(PRODUCT_OBJ, "*", 0, o);
  }
  EqObjPtr unx()
  {
    ws();
    if (eat("-"))
    {
      auto a = unx();
      if (a->type == CONST_OBJ)
        return cst(-a->value);
      return mk(PRODUCT_OBJ, "*", 0, {cst(-1), a});
    }
    if (eat("+"))
      return unx();
    if (p < s.size() && s[p] == '!' && !(p + 1 < s.size() && s[p + 1] == '='))
    {
      ++p;
      return mk(ULOGICAL_OBJ, "!", 0, {unx()});
    }
    return powx();
  }
  EqObjPtr powx()
  {
    auto a = prim();
    if (eat("^"))
      a = mk(POW_OBJ, "pow", 0, {a, unx()});
    return a;
  }
  std::vector<EqObjPtr> arglist()
  {
    std::vector<EqObjPtr> a;
    need("(");
    if (eat(")"))
      return a;
    do
      a.push_back(expr());
    while (eat(","));
    need(")");
    return a;
  }
  void arity(const std::string &f, size_t n, const std::vector<EqObjPtr> &a)
  {
    if (a.size() != n)
      fail("Function " + f + " expects " + std::to_string(n) + " arguments");
  }
  EqObjPtr declare(bool define)
  {
    need("(");
    std::string f = ident();
    if (f.empty())
      fail("syntax error in declare");
    need("(");
    Func fn;
    auto saved = formals;
    do
    {
      std::string v = ident();
      if (v.empty())
        fail("syntax error in declare");
      fn.formal.push_back(v);
      formals.insert(v);
    } while (eat(","));
    need(")");
    std::vector<EqObjPtr> a;
    for (auto &v : fn.formal)
      a.push_back(mk(VARIABLE_OBJ, v, 0, {}));
    if (define)
    {
      if (!funcs().count(f))
        funcs()[f] = fn;
      while (eat(","))
        fn.derivs.push_back(expr());
      if (fn.derivs.size() != fn.formal.size())
        fail("wrong number of derivatives for " + f);
    }
    need(")");
    formals = saved;
    funcs()[f] = fn;
    return mk(USERFUNC_OBJ, f, 0, a);
  }
  EqObjPtr prim()
  {
    ws();
    if (p >= s.size())
      fail("syntax error, unexpected end of expression");
    char c = s[p];
    if (isdigit(static_cast<unsigned char>(c)) || c == '.')
    {
      char *e = nullptr;
      double v = strtod(s.c_str() + p, &e);
      if (e == s.c_str() + p)
        fail("syntax error in number");
      p = e - s.c_str();
      return cst(v);
    }
    if (eat("("))
    {
      auto a = expr();
      need(")");
      return a;
    }
    std::string n = ident();
    if (n.empty())
      fail(std::string("syntax error, unexpected ") + c);
    ws();
    if (p >= s.size() || s[p] != '(')
      return sym(n);
    if (n == "declare" || n == "define")
      return declare(n == "define");
    auto a = arglist();
    if (n == "diff")
    {
      arity(n, 2, a);
      if (a[1]->type != VARIABLE_OBJ && a[1]->type != MODEL_OBJ)
        fail("second argument of diff must be a variable");
      return diff(a[0], a[1]);
    }
    if (n == "simplify" || n == "expand" || n == "scale" || n == "unscale")
    {
      arity(n, 1, a);
      return simp(a[0]);
    }
    if (n == "exp")
    {
      arity(n, 1, a);
      return mk(EXPONENT_OBJ, n, 0, a);
    }
    if (n == "log")
    {
      arity(n, 1, a);
      return mk(LOG_OBJ, n, 0, a);
    }
    if (n == "pow")
    {
      arity(n, 2, a);
      return mk(POW_OBJ, n, 0, a);
    }
    if (n == "if")
    {
      arity(n, 2, a);
      return mk(IF_OBJ, n, 0, a);
    }
    if (n == "ifelse")
    {
      arity(n, 3, a);
      return mk(IFELSE_OBJ, n, 0, a);
    }
    auto it = funcs().find(n);
    if (it == funcs().end())
      fail("Function " + n + " has not been declared.");
    arity(n, it->second.formal.size(), a);
    return mk(USERFUNC_OBJ, n, 0, a);
  }
  EqObjPtr all()
  {
    EqObjPtr r;
    for (;;)
    {
      ws();
      if (p >= s.size())
        break;
      if (eat(";"))
        continue;
      r = expr();
      ws();
      if (p < s.size() && !eat(";"))
        fail(std::string("syntax error, unexpected ") + s[p]);
    }
    if (!r)
      fail("syntax error, empty expression");
    return r;
  }
};

void collect(const EqObjPtr &e, EqObjType t, std::set<std::string> &o)
{
  if (e->type == t)
    o.insert(e->str);
  for (auto &a : e->args)
    collect(a, t, o);
}
}  // namespace

namespace EngineAPI {
const std::string &getStringValue(const EqObjPtr &e) { return e->str; }
double getDoubleValue(const EqObjPtr &e) { return e->value; }
const std::string &getName(const EqObjPtr &e) { return e->name; }
std::vector<EqObjPtr> getArgs(const EqObjPtr &e) { return e->args; }
EqObjType getEnumeratedType(const EqObjPtr &e) { return e->type; }
std::set<std::string> getReferencedType(const EqObjPtr &e, EqObjType t)
{
  std::set<std::string> o;
  collect(e, t, o);
  return o;
}
EqObjPtr con(double v) { return cst(v); }
EqObjPtr mod(const std::string &n) { return mk(MODEL_OBJ, n, 0, {}); }
EqObjPtr var(const std::string &n) { return mk(VARIABLE_OBJ, n, 0, {}); }
void SetModelListCallBack(ModelListCallback c) { modelcb = c; }
void SetDerivativeRule(DerivativeRule r) { derivrule = r; }
void ResetAllData()
{
  funcs().clear();
  modelcb = nullptr;
  derivrule = nullptr;
}
}  // namespace EngineAPI

namespace EvalExpr {
EqObjPtr evaluateExpression(const std::string &s, error_t &errors)
{
  try
  {
    Parser ps(s);
    return ps.all();
  }
  catch (const std::exception &x)
  {
    errors.push_back(x.what());
  }
  return EqObjPtr();
}
}  // namespace EvalExpr
