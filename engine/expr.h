// Hash-consed terms over Bool / Int / Real with an (eagerly) canonical sum-of-products normal form.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum Kind : uint8_t {
    K_CONST,   // rational / integer constant
    K_VAR,     // free variable (Bool, Int or Real)
    K_SUM,     // c + sum coef*term
    K_PROD,    // prod fac^exp
    K_APP,     // uninterpreted (or axiomatised) function application
    K_ITE,
    K_TOREAL,  // Int -> Real
    K_FLOOR,   // Real -> Int
    K_IDIV,    // Int floor division by positive constant
    K_IMOD,    // Int modulo positive constant
    K_TRUE, K_FALSE, K_NOT, K_AND, K_OR,
    K_LE0,     // arg <= 0
    K_EQ0      // arg == 0
};
enum Sort : uint8_t { S_BOOL, S_INT, S_REAL };

struct Node;
typedef const Node* E;

struct Node {
    Kind k;
    Sort s;
    uint32_t id;
    uint64_t hash;
    mpq_class c;                               // CONST value, SUM constant, IDIV/IMOD divisor
    std::string name;                          // VAR, APP
    std::vector<std::pair<E, mpq_class>> t;    // SUM terms (sorted by id)
    std::vector<std::pair<E, int>> f;          // PROD factors (sorted by id)
    std::vector<E> a;                          // other args
};

E eConst(const mpq_class& v, Sort s);
inline E eReal(const mpq_class& v) { return eConst(v, S_REAL); }
inline E eInt(int64_t v) { return eConst(mpq_class((long)v), S_INT); }
E eVar(const std::string& n, Sort s);
E eTrue();
E eFalse();
E eAdd(E a, E b);
E eSub(E a, E b);
E eNeg(E a);
E eMul(E a, E b);
E eScale(E a, const mpq_class& c);
E eDiv(E a, E b);   // Real
E ePow(E a, int n);
E eApp(const std::string& n, const std::vector<E>& args, Sort s);
E eSqrt(E a);
E eIte(E c, E a, E b);
E eToReal(E a);
E eFloor(E a);
E eIDiv(E a, const mpz_class& d);
E eIMod(E a, const mpz_class& d);
E eNot(E a);
E eAnd(E a, E b);
E eOr(E a, E b);
E eAndN(std::vector<E> v);
E eOrN(std::vector<E> v);
E eEq(E a, E b);
E eLe(E a, E b);
E eLt(E a, E b);
inline E eGe(E a, E b) { return eLe(b, a); }
inline E eGt(E a, E b) { return eLt(b, a); }
inline E eNe(E a, E b) { return eNot(eEq(a, b)); }
inline E eImplies(E a, E b) { return eOr(eNot(a), b); }
E eAbs(E a);
E eMin(E a, E b);
E eMax(E a, E b);

inline bool isConst(E e) { return e->k == K_CONST; }
inline bool isTrue(E e) { return e->k == K_TRUE; }
inline bool isFalse(E e) { return e->k == K_FALSE; }
inline E eBool(bool b) { return b ? eTrue() : eFalse(); }

typedef std::unordered_map<E, E> Subst;
E eSubst(E e, const Subst& m);
E eSubst(E e, const Subst& m, std::unordered_map<E, E>& memo);
E eRebuild(E e, const std::function<E(E)>& r);   // rebuild node with r applied to children
E eDiff(E e, E var);
std::string eStr(E e, size_t limit = 2000);
void eChildren(E e, std::vector<E>& out);
void eCollect(E e, std::unordered_set<E>& seen);  // all sub nodes
// multiply e with all denominators (and re-expand); false if too large
bool eNumerator(E e, E& out);
E eFindIte(E e);                          // an innermost ITE condition inside e or nullptr
E eAssumeCond(E e, E cond, bool val);     // replace cond (and its ITEs) by its truth value
size_t eCount();
size_t eSize(E e);                        // number of distinct sub nodes
extern size_t gExpandLimit;
extern bool gBigProducts;  // an opaque product exists
mpq_class niceRational(double d);
extern std::set<E> gDenoms;      // symbolic denominators encountered (definedness side conditions)
extern std::set<E> gSqrtArgs;
const mpq_class& infConst();     // stands for +infinity

struct TooBig : std::runtime_error { TooBig(const std::string& s) : std::runtime_error(s) {} };
