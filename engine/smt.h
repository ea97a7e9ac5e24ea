#pragma once
#include "expr.h"
struct Model { std::map<std::string, std::pair<Sort, mpq_class>> vars; };
enum SatR { R_SAT, R_UNSAT, R_UNKNOWN };
struct SmtStats { uint64_t queries = 0, cached = 0; double secs = 0; std::map<std::string, uint64_t> by; };
extern SmtStats gSmt;
extern std::string gLastBackend;
// Is the conjunction satisfiable?  fast: feasibility query (single back end, short timeout)
SatR smtCheck(const std::vector<E>& cs, unsigned timeoutMs, Model* m, bool portfolio);
// only the constraints connected (through variables) to goal
std::vector<E> smtSlice(const std::vector<E>& pc, E goal);
bool sampleSat(const std::vector<E>& cs);  // a concrete witness is at hand
void samplePositive(E assumed);
double nowSec();
