// ------------------------------------------------------------------ driver loop
static void run() {
  u64 n = 0;
  for (;;) {
    Frame &f = S->st.back(); auto &ins = f.f->bbs[f.bb].ins; XI &x = ins[f.ip];
    ++S->steps; if (S->steps > OPT_STEPS) throw Kill{5, "step limit"};
    if ((++n & 0xfff) == 0 && now() > OPT_TIME) throw Kill{5, "time limit"};
    step(x);
  }
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
template <class Mp> static void jmap(std::ostream &o, const char *k, const Mp &m) { o << "\"" << k << "\":{"; bool f = true; for (auto &kv : m) { o << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; f = false; } o << "},\n"; }
int main(int argc, char **argv) {
  T0 = Clk::now(); std::string file, entry = "entry"; 
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--time") OPT_TIME = atof(nx().c_str()); else if (a == "--steps") OPT_STEPS = atoll(nx().c_str()); else if (a == "--maxconc") OPT_MAXCONC = atoi(nx().c_str()); else if (a == "--log2") OPT_LOG2 = true; else if (a == "--maxviol") OPT_MAXVIOL = atoi(nx().c_str()); else if (a == "--maxpaths") OPT_MAXPATHS = atoll(nx().c_str()); else if (a == "--logic") OPT_LOGIC = nx(); else if (a == "--out") OPT_OUT = nx(); else if (a == "--prof") OPT_PROF = true; else if (a == "--shard") { std::string v = nx(); OPT_SHARD = atoll(v.c_str()); OPT_SHARDN = atoll(v.c_str() + v.find('/') + 1); } else if (a == "--seed") OPT_SEED = atoll(nx().c_str()); else if (a == "--trace") OPT_TRACE = true; else if (a == "--qto") OPT_QTO = atoi(nx().c_str()); else if (a == "--dumpq") { OPT_DUMPQ = nx(); OPT_DUMPN = atoi(nx().c_str()); } else file = a;
  }
  z3::context zc; ZC = &zc; z3::solver sol = OPT_LOGIC.empty() ? z3::solver(zc, z3::solver::simple()) : z3::solver(zc, OPT_LOGIC.c_str()); { z3::params p(zc); p.set("timeout", OPT_QTO); sol.set(p); } SOL = &sol;
  SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("symex", errs()); return 3; } DL = &M->getDataLayout();
  std::string fatal; State *init = new State; S = init;
  Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  bool timeout = false;
  try {
    initGlobals(); pushFrame(fnInfo(E), {}, nullptr);
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(&o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first > b.first; }); for (auto &p : v) if (p.second && !p.second->isDeclaration()) pushFrame(fnInfo(p.second), {}, nullptr); }
  } catch (Kill &k) { fprintf(stderr, "init failed: %s\n", k.msg.c_str()); return 3; }
  WL.push_back(S);
  while (!WL.empty()) {
    if (now() > OPT_TIME) { timeout = true; break; } if ((int)VIOLS.size() >= OPT_MAXVIOL) break; if (!VIOLS.empty()) { static double fv = now(); if (now() > fv + 20) break; } if (ST.paths >= OPT_MAXPATHS) { timeout = true; break; }
    if (OPT_SEED && WL.size() > 1) { OPT_SEED = OPT_SEED * 6364136223846793005ull + 1442695040888963407ull; if ((OPT_SEED >> 60) == 0) std::swap(WL[(OPT_SEED >> 33) % WL.size()], WL.back()); }
    S = WL.back(); WL.pop_back(); ++ST.paths; u64 s0 = S->steps;
    try { run(); } catch (Kill &k) {
      switch (k.why) { case 0: ++ST.done; flushEq(); break; case 1: ++ST.assumed; break; case 2: ++ST.cut; ++CUTS[k.msg + " @ " + whereChain(3)]; break; case 3: ++ST.unsupported; ++UNSUP[k.msg + " @ " + whereChain(4)]; break; case 4: break; case 6: --ST.paths; break; case 5: ++ST.limit; ++CUTS[k.msg + " @ " + (S->st.empty() ? "" : whereChain(3))]; break; }
    } catch (z3::exception &e) { ++ST.unsupported; ++UNSUP[std::string("z3: ") + e.msg()]; }
    ST.steps += S->steps - s0; delete S; S = nullptr;
  }
  std::ofstream fo; std::ostream *o = &std::cout; if (!OPT_OUT.empty()) { fo.open(OPT_OUT); o = &fo; }
  *o << "{\"entry\":\"" << jesc(entry) << "\",\n\"complete\":" << (WL.empty() && !timeout ? "true" : "false") << ",\n\"pending\":" << WL.size() << ",\n";
  *o << "\"paths\":" << ST.paths << ",\"done\":" << ST.done << ",\"assumed\":" << ST.assumed << ",\"cut\":" << ST.cut << ",\"unsupported\":" << ST.unsupported << ",\"limit\":" << ST.limit << ",\n\"queries\":" << ST.queries << ",\"unsat\":" << ST.unsat << ",\"sat\":" << ST.sat << ",\"unknown\":" << ST.unknown << ",\"asserts\":" << ST.asserts << ",\"assert_queries\":" << ST.assertQ << ",\"assert_folded\":" << ST.assertTriv << ",\"eq_queries\":" << ST.pathQ << ",\"eq_by_path_query\":" << ST.pathEq << ",\"eq_cross_checks_skipped\":" << ST.eqSkip << ",\"eq_by_path_equations\":" << ST.eqRel << ",\"eq_s\":" << EQ_TIME << ",\"xfail\":" << ST.xfail << ",\"forks\":" << ST.forks << ",\"steps\":" << ST.steps << ",\"concretisations\":" << ST.concs << ",\"solver_s\":" << ST.solver << ",\"wall_s\":" << now() << ",\n";
  if (OPT_PROF) { jmap(*o, "forksites", FORKS); jmap(*o, "qsites", QSITE); jmap(*o, "qus", QMS); } jmap(*o, "cover", COVER); jmap(*o, "cuts", CUTS); jmap(*o, "unsup", UNSUP); jmap(*o, "labels", ASSERTLBL);
  *o << "\"functions\":["; bool f = true; for (auto &s : COVFN) { *o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; } *o << "],\n\"violations\":["; f = true;
  for (auto &v : VIOLS) { *o << (f ? "" : ",") << "\n{\"label\":\"" << jesc(v.label) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":["; bool g = true; for (auto &p : v.vals) { *o << (g ? "" : ",") << "[\"" << jesc(p.first) << "\"," << p.second << "]"; g = false; } *o << "]}"; f = false; }
  *o << "]}\n"; o->flush(); if (fo.is_open()) fo.close();
  _exit(0);
}
