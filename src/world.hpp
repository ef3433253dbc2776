#pragma once
#include "prog.hpp"
#include "spec.hpp"
enum OpKind { SET, SETELEM, SETBAD, SETALL, FW, BW, FBW, RESET, RESETALL, REBIND, SCRIBBLE, RECREATE, KVSET, CSET,
              CLONE, MOVE, CHURN, DROPREP, NOISE, VASSIGN, XFW, XBW, XBUILD, XBIND, XCOPYVAR, XCLONE, ZOMBIE, ADDREP, ASSIGN, REVISIT, SETREL, MANY, OPKINDS };
extern const char* op_names[];
void sample(Rng& g, const std::string& dom, int kind, int r, int c, int n, Num* out);
void sample_bad(Rng& g, const std::string& dom, int kind, int r, int c, int n, Num* out, bool wild);
int dim(int code, int n, int k);
Spec world_spec(const std::string& profile, uint64_t seed, long index);
Result world_exec(const Spec& s, Stats& st, bool log);
inline bool same_bits(Num a, Num b) { double x = D(a), y = D(b); if (x != x && y != y) return true; return std::memcmp(&x, &y, 8) == 0; }
