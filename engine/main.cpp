#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>
bool gVerbose = false;

static std::string esc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}
static void dumpObl(std::ostream& o, const Obl& x)
{
    o << "{\"label\":" << esc(x.label) << ",\"status\":" << esc(x.status) << ",\"detail\":" << esc(x.detail) << ",\"model\":{";
    bool f = true;
    for (auto& p : x.model.vars)
    {
        if (!f) o << ",";
        f = false;
        char buf[64];
        snprintf(buf, sizeof buf, "%.17g", p.second.second.get_d());
        o << esc(p.first) << ":" << buf;
    }
    o << "},\"hasModel\":" << (x.hasModel ? "true" : "false") << "}";
}
int main(int argc, char** argv)
{
    // ctv file.bc proof [-t secs] [-q ms] [-o ms] [-v] ; "--list" lists proofs
    std::string file = argc > 1 ? argv[1] : "", proof = argc > 2 ? argv[2] : "";
    double budget = 300;
    unsigned q = 3000, ot = 15000;
    for (int i = 3; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "-t") budget = atof(argv[++i]);
        else if (a == "-q") q = atoi(argv[++i]);
        else if (a == "-o") ot = atoi(argv[++i]);
        else if (a == "-v") gVerbose = true;
        else if (a == "-x") gExpandLimit = atol(argv[++i]);
    }
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(file, err, ctx);
    if (!M) { std::cerr << "cannot read " << file << ": " << err.getMessage().str() << "\n"; return 3; }
    if (proof == "--list")
    {
        for (auto& f : *M)
            if (f.getName().starts_with("proof_") && !f.isDeclaration()) std::cout << f.getName().str() << "\n";
        return 0;
    }
    auto* f = M->getFunction(proof);
    if (!f || f->isDeclaration()) { std::cerr << "no proof " << proof << "\n"; return 3; }
    double t0 = nowSec();
    std::string unsupported;
    Engine e(M.get());
    e.deadline = t0 + budget;
    e.qTimeout = q;
    e.oTimeout = ot;
    try { e.runProof(f); }
    catch (Unsupported& u) { unsupported = u.what(); }
    catch (TooBig& u) { unsupported = u.what(); }
    catch (std::exception& u) { unsupported = std::string("internal: ") + u.what(); }
    std::ostream& o = std::cout;
    uint64_t tot = 0, ok = 0;
    o << "{\"proof\":" << esc(proof) << ",\"unsupported\":" << esc(unsupported) << ",\"paths\":" << e.paths << ",\"infeasible\":" << e.infeasible << ",\"insts\":" << e.insts
      << ",\"forks\":" << e.forks << ",\"secs\":" << (nowSec() - t0) << ",\"solver_secs\":" << gSmt.secs << ",\"queries\":" << gSmt.queries << ",\"labels\":{";
    bool first = true;
    for (auto& p : e.byLabel)
    {
        if (!first) o << ",";
        first = false;
        o << esc(p.first) << ":[" << p.second[0] << "," << p.second[1] << "]";
        tot += p.second[0];
        ok += p.second[1];
    }
    o << "},\"obligations\":" << tot << ",\"discharged\":" << ok << ",\"backends\":{";
    first = true;
    for (auto& p : e.byBackend) { if (!first) o << ","; first = false; o << esc(p.first) << ":" << p.second; }
    o << "},\"covers\":{";
    first = true;
    for (auto& p : e.covers) { if (!first) o << ","; first = false; o << esc(p.first) << ":" << p.second; }
    o << "},\"failed\":[";
    first = true;
    for (auto& x : e.fails) { if (!first) o << ","; first = false; dumpObl(o, x); }
    o << "],\"undecided\":[";
    first = true;
    for (auto& x : e.undecided) { if (!first) o << ","; first = false; dumpObl(o, x); }
    o << "],\"functions\":[";
    first = true;
    std::set<std::string> rf;
    e.repoFunctions(rf);
    for (auto& x : rf) { if (!first) o << ","; first = false; o << esc(x); }
    o << "],\"externs\":[";
    first = true;
    for (auto& x : e.externs) { if (!first) o << ","; first = false; o << esc(x); }
    o << "],\"assumptions\":[";
    first = true;
    for (auto& x : e.assumptions) { if (!first) o << ","; first = false; o << esc(x); }
    o << "],\"loops\":[";
    first = true;
    for (auto& x : e.loopNotes) { if (!first) o << ","; first = false; o << esc(x); }
    o << "],\"denominators\":" << gDenoms.size() << ",\"terms\":" << eCount();
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    o << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << "}\n";
    o.flush();
    _exit(0);
}
