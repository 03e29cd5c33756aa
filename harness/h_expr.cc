// expressions of boundary conditions
#include "w.h"
#include "nimble_expression_parser.cc"
using namespace ExpressionParsing;

// a subexpression of unknown form, and one that turns into another when optimised
template <class T>
struct Opaque : Evaluatable<T>
{
  T* p;
  operator T() const { return *p; }
  Opaque(T* p) : p(p) {}
};
template <class T>
struct Turns : Evaluatable<T>
{
  T* p;
  operator T() const { return *p; }
  Evaluatable<T>* optimize(MemoryManager& m) { return m.New<GenericReference<T>>(p); }
  Turns(T* p) : p(p) {}
};
template <class T>
static Evaluatable<T>* child(MemoryManager& m, int kind, T* p)
{
  switch (kind) {
    case 0: return m.New<GenericConstant<T>>(*p);
    case 1: return m.New<GenericReference<T>>(p);
    case 2: return m.New<Opaque<T>>(p);
    default: return m.New<Turns<T>>(p);
  }
}
// value of the built node (1), of the optimised node at once (2) and after the operands changed (3)
template <class Op, class Out, class In>
static void two(int k1, int k2, const double* v, double* out)
{
  MemoryManager    m;
  In               a = (In)v[0], b = (In)v[1];
  Evaluatable<In>* ca = child<In>(m, k1, &a);
  Evaluatable<In>* cb = child<In>(m, k2, &b);
  Evaluatable<Out>* e = m.New<Op>(ca, cb);
  out[0]              = (Out)*e;
  Evaluatable<Out>* o = e->optimize(m);
  out[1]              = (Out)*o;
  a                   = (In)v[2];
  b                   = (In)v[3];
  out[2]              = (Out)*o;
}
API void ex_op(int op, int k1, int k2, const double* v, double* out)
{
  switch (op) {
    case 0: two<DoubleAdd, double, double>(k1, k2, v, out); break;
    case 1: two<DoubleSubtract, double, double>(k1, k2, v, out); break;
    case 2: two<DoubleMultiply, double, double>(k1, k2, v, out); break;
    case 3: two<DoubleDivide, double, double>(k1, k2, v, out); break;
    case 4: two<DoublePow, double, double>(k1, k2, v, out); break;
    case 5: two<DoubleMod, double, double>(k1, k2, v, out); break;
    case 6: two<GenericGreater<bool, double, double>, bool, double>(k1, k2, v, out); break;
    case 7: two<GenericGreaterOrEqual<bool, double, double>, bool, double>(k1, k2, v, out); break;
    case 8: two<GenericLess<bool, double, double>, bool, double>(k1, k2, v, out); break;
    case 9: two<GenericLessOrEqual<bool, double, double>, bool, double>(k1, k2, v, out); break;
    case 10: two<GenericEqual<bool, double, double>, bool, double>(k1, k2, v, out); break;
  }
}
static bool cond(int x) { return x != 0; }
API void ex_bool(int op, int k1, int k2, const int* v, double* out)
{
  double w[4] = {(double)cond(v[0]), (double)cond(v[1]), (double)cond(v[2]), (double)cond(v[3])};
  switch (op) {
    case 0: two<GenericAnd<bool, bool, bool>, bool, bool>(k1, k2, w, out); break;
    case 1: two<GenericOr<bool, bool, bool>, bool, bool>(k1, k2, w, out); break;
    case 2: two<GenericXor<bool, bool, bool>, bool, bool>(k1, k2, w, out); break;
  }
}
API void ex_not(int k, const int* v, double* out)
{
  MemoryManager      m;
  bool               a = cond(v[0]);
  BooleanExpression* e = m.New<GenericNot<bool, bool>>(child<bool>(m, k, &a));
  out[0]               = (bool)*e;
  e                    = e->optimize(m);
  out[1]               = (bool)*e;
  a                    = cond(v[1]);
  out[2]               = (bool)*e;
}
static const char* const FUN[] = {"sin", "cos", "tan", "erf", "exp", "log", "abs", "asin", "acos", "atan", "sqrt", "cbrt", "erfc", "ceil", "round", "floor", "log10"};
API int ex_fun(int f, int k, const double* v, double* out)
{
  MemoryManager         m;
  double                a = v[0];
  RealValuedExpression* c = child<double>(m, k, &a);
  RealValuedExpression* e = f < 0 ? m.New<GenericNeg<double, double>>(c) : GetCMathFunc(Reader(FUN[f]), c, m);
  out[0]                  = (double)*e;
  e                       = e->optimize(m);
  out[1]                  = (double)*e;
  a                       = v[1];
  out[2]                  = (double)*e;
  return f < 0 || IsCMathFunc(Reader(FUN[f]));
}
API void ex_ipow(int n, int k, const double* v, double* out)
{
  MemoryManager         m;
  double                a = v[0];
  RealValuedExpression* e = m.New<DoubleToIntegerPow>(child<double>(m, k, &a), m.New<GenericConstant<int>>(n));
  out[0]                  = (double)*e;
  e                       = e->optimize(m);
  out[1]                  = (double)*e;
  a                       = v[1];
  out[2]                  = (double)*e;
}
API void ex_cond(int kc, int k1, int k2, const int* c, const double* v, double* out)
{
  MemoryManager         m;
  double                a = v[0], b = v[1];
  bool                  q = cond(c[0]);
  RealValuedExpression* e = m.New<RealValuedConditional>(child<bool>(m, kc, &q), child<double>(m, k1, &a), child<double>(m, k2, &b));
  out[0]                  = (double)*e;
  e                       = e->optimize(m);
  out[1]                  = (double)*e;
  a                       = v[2];
  b                       = v[3];
  q                       = cond(c[1]);
  out[2]                  = (double)*e;
}
// text -> value at two points, through the functor and through its copies
API int ex_text(int n, const unsigned char* text, const double* p, double* out)
{
  TRY
  std::string              s((const char*)text, n);
  BoundaryConditionFunctor f(s);
  out[0] = f.eval(p[0], p[1], p[2], p[3]);
  out[1] = f(p[4], p[5], p[6], p[7]);
  out[2] = f.eval();
  CATCH(ABORTED)
  return 0;
}
API int ex_copy(int n, const unsigned char* text, const double* p, double* out)
{
  TRY
  std::string               s((const char*)text, n);
  BoundaryConditionFunctor* f = new BoundaryConditionFunctor(s);
  BoundaryConditionFunctor  g(*f), h;
  h      = *f;
  out[0] = f->eval(p[0], p[1], p[2], p[3]);
  out[1] = g.eval(p[4], p[5], p[6], p[7]);
  out[2] = f->eval();
  delete f;
  out[3] = g.eval();
  out[4] = h.eval(p[0], p[1], p[2], p[3]);
  h      = std::string("x*0+1");
  out[5] = h.eval();
  CATCH(ABORTED)
  return 0;
}
// the memory manager deletes what it created exactly once
struct Counted : DeletableObjectBaseClass
{
  int* c;
  Counted(int* c) : c(c) {}
  ~Counted() { ++*c; }
};
API int ex_mem(int n, int* count)
{
  int bad = 0;
  {
    MemoryManager m;
    for (int i = 0; i < n; ++i) m.New<Counted>(&count[i]);
    for (int i = 0; i < n; ++i) bad += count[i];
  }
  return bad;
}
