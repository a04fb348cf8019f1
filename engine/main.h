static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string entryName, outFile;
static void run() {
  tStart = now(); string fatal;
  try {
    Function *F = M->getFunction(entryName); if (!F || F->isDeclaration()) throw Unsupported("no entry " + entryName);
    State *s0 = new State(); s0->model = std::make_shared<MState>(Model{}); s0->nextId = DYN + 1; // dynamic ids live above the globals
    knownHashes(*s0);
    cur = s0; pushCall(*s0, F, nullptr, 0); work.push_back(s0);
    while (!work.empty()) {
      if (viols.size() >= 20) { inconclusive.insert("too many violations, exploration stopped"); break; }
      State *s = work.back(); work.pop_back(); cur = s; uint64_t k = 0;
      try {
        for (;;) { step(*s); if ((++k & 4095) == 0) { if (now() - tStart > maxTime) { inconclusive.insert("time limit"); goto done; } if (s->steps > maxSteps) throw Inconclusive("step limit (loop bound) at " + whereStr(*s, 4)); } }
      } catch (PathEnd &) {}
      catch (Inconclusive &e) { inconclusive.insert(string(e.what()) + " at " + siteOf(*s)); }
      catch (Unsupported &e) { inconclusive.insert(string("unsupported: ") + e.what() + " at " + whereStr(*s, 5)); }
      delete s; if (S.paths >= maxPaths) { inconclusive.insert("path limit"); break; }
      if (now() - tStart > maxTime) { if (!work.empty()) inconclusive.insert("time limit"); break; }
    }
  done:;
  } catch (std::exception &e) { inconclusive.insert(string("fatal: ") + e.what()); }
  std::ostringstream o;
  o << "{\"entry\":\"" << entryName << "\",\"shard\":\"" << shardI << "/" << shardN << "\",\"paths\":" << S.paths << ",\"forks\":" << S.forks << ",\"instructions\":" << S.instrs << ",\"queries\":" << S.queries << ",\"query_cache_hits\":" << S.cacheHits << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat << ",\"asserts_reached\":" << S.asserts << ",\"assert_queries\":" << S.assertQueries << ",\"assumed_away\":" << S.assumedAway << ",\"allowed_panics\":" << S.allowedPanics << ",\"byte_queries\":" << S.byteq << ",\"z3_queries\":" << S.z3 << ",\"z3_confirmed_unsat\":" << S.confirmed << ",\"z3_seconds\":" << S.z3time << ",\"solver_seconds\":" << S.solver << ",\"max_query_ms\":" << S.maxQueryMs << ",\"seconds\":" << now() - tStart << ",\"expr_nodes\":" << X.all.size();
  o << ",\"covers\":{"; bool first = true; for (auto &c : coverCount) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; } o << "}";
  o << ",\"inconclusive\":["; first = true; for (auto &c : inconclusive) { o << (first ? "" : ",") << "\"" << jesc(c) << "\""; first = false; } o << "]";
  o << ",\"functions\":["; first = true; for (auto &c : repoFns) { o << (first ? "" : ",") << "\"" << jesc(c) << "\""; first = false; } o << "]";
  o << ",\"lines\":{"; first = true; for (auto &c : repoLines) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":["; bool g = true; for (auto l : c.second) { o << (g ? "" : ",") << l; g = false; } o << "]"; first = false; } o << "}";
  o << ",\"functions_total\":"; size_t ft = 0; for (auto &c : cfs) if (c.second && c.second->calls) ft++; o << ft;
  auto kv = [&](const vector<std::pair<string, string>> &v) { o << "["; bool g = true; for (auto &i : v) { o << (g ? "" : ",") << "[\"" << jesc(i.first) << "\",\"" << i.second << "\"]"; g = false; } o << "]"; };
  o << ",\"samples\":["; first = true; for (auto &c : samples) { o << (first ? "" : ",") << "{\"approx\":" << (c.approx ? "true" : "false") << ",\"inputs\":"; kv(c.in); o << ",\"observed\":"; kv(c.obs); o << "}"; first = false; } o << "]";
  o << ",\"observed\":["; first = true; for (auto &c : observed) { o << (first ? "" : ",") << "\"" << jesc(c) << "\""; first = false; } o << "]";
  o << ",\"inputs_used\":{"; first = true; for (auto &c : usedIn) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":\"" << c.second << "\""; first = false; } o << "}";
  o << ",\"violations\":["; first = true;
  for (auto &v : viols) { o << (first ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"id\":\"" << jesc(v.id) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":{"; bool f2 = true; for (auto &i : v.inputs) { o << (f2 ? "" : ",") << "\"" << jesc(i.first) << "\":\"" << i.second << "\""; f2 = false; } o << "}}"; first = false; }
  o << "]}\n";
  if (outFile.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream(outFile) << o.str(); }
  if (profile) { vector<std::pair<uint64_t, string>> v; for (auto &k : forkSites) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  if (profile) { vector<std::pair<double, string>> v; for (auto &k : querySites) v.push_back({k.second.second, std::to_string(k.second.first) + " " + k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8.3fs %s\n", v[i].first, v[i].second.c_str()); }
  fflush(stdout); fflush(stderr);
  _exit(inconclusive.size() ? 3 : viols.size() ? 1 : 0);
}
int main(int argc, char **argv) {
  string bc;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--symmem") symMem = true; else if (a == "--after-violation") afterViol = atof(nx().c_str()); else if (a == "--out") outFile = nx(); else if (a == "--time") maxTime = atof(nx().c_str()); else if (a == "--query-ms") Z.timeoutMs = atoi(nx().c_str()); else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-enum") maxEnum = atoi(nx().c_str()); else if (a == "--paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") trace = true; else if (a == "--profile") profile = true;
    else if (a == "--shard") { sscanf(nx().c_str(), "%u/%u", &shardI, &shardN); }
    else if (a == "--random") { concreteMode = randomIn = true; rng.seed(strtoull(nx().c_str(), 0, 10)); }
    else if (a == "--concrete") { concreteMode = true; std::ifstream f(nx()); string line; while (std::getline(f, line)) { size_t p = line.find('='); if (p != string::npos) concreteIn[line.substr(0, p)] = line.substr(p + 1); } }
    else if (a == "--samples") nSamples = atoi(nx().c_str()); else if (a == "--seed") srng.seed(strtoull(nx().c_str(), 0, 10)); else if (a == "--repo") repoDir = nx();
    else if (bc.empty()) bc = a; else entryName = a; }
  SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("axsym", errs()); return 2; }
  { // LLVM 18 reads older modules with 16-byte aligned i128; rustc 1.72 laid its types out with 8
    string dl = M->getDataLayoutStr(); size_t p = dl.find("-i128:128"); if (p != string::npos) { dl.erase(p, 9); M->setDataLayout(dl); } }
  DL = &M->getDataLayout();
  if (entryName.empty()) { for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) puts(f.getName().str().c_str()); return 0; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t; pthread_create(&t, &at, [](void *) -> void * { run(); return nullptr; }, nullptr); pthread_join(t, nullptr); return 0;
}
