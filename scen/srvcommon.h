// Oracle for the network server: rows, queries, rendering, history check.
#pragma once
#include "../sim/scen.h"
#include "../sim/net.h"
#include <string.h>
#include <stdlib.h>
#include <memory>
#include <algorithm>
extern "C" {
#include "dbapi.h"
int dserve_main(int argc, char** argv);
}
struct V { int t = WG_NULLTYPE; i64 i = 0; double d = 0; std::string s, x; bool hasx = false; int ref = -1; };
struct Row { int key = 0; i64 off = 0; std::vector<V> f; };
typedef std::shared_ptr<const Row> RowP;
typedef std::map<int, RowP> State;
typedef std::map<std::string, State> States;
struct Cond { int col; std::string cmp; V v; std::string text, type; bool withcmp = true, withtype = true; };
struct Query { std::string db, op; std::vector<Cond> conds; bool byid = false; std::vector<i64> ids; i64 from = -1, count = -1; int fmt = 1, esc = 2, depth = 100; bool showid = false, hasesc = false; std::string jsonp, token; bool hasjsonp = false, hastoken = false; i64 size = -1; };
std::string render_row(const States& st, const State& s, const Row& r, const Query& q, int depth);
bool row_matches(const Row& r, const Query& q);
std::string hexenc(const std::string& s);
