// Every protocol type: encoded, decoded, and sent through a pair of sessions.
//   types   : enc + back and dec for every type and choice of optional fields
//   session : requests, their responses and events from one session to another
#include "hseq.h"
#include "hjson.h"
namespace hj { struct Opt { int mode = 0; int k = 0; }; }
struct DapOps {
  std::string name;
  int nopt;
  std::function<void(hj::Rng&, hj::Opt)> enc, dec, session;
};
inline std::vector<DapOps>& dapOps() { static std::vector<DapOps> v; return v; }
int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  auto ops = dapOps();
  std::sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.name < b.name; });
  // the systematic cases: every type with all, none, only one and all but one optional fields
  std::vector<std::pair<size_t, hj::Opt>> sys;
  for (size_t i = 0; i < ops.size(); i++) {
    if (what == "session" && !ops[i].session) continue;
    auto add = [&](int m, int k) { hj::Opt o; o.mode = m; o.k = k; sys.push_back({i, o}); };
    add(1, 0);
    add(2, 0);
    if (what == "types") for (int k = 0; k < ops[i].nopt; k++) { add(3, k); add(4, k); }
  }
  return hseq::run(argc, argv, [&](long idx, uint64_t seed) {
    hj::Rng r(seed);
    size_t t = size_t(idx) < sys.size() ? sys[size_t(idx)].first : r(ops.size());
    hj::Opt o = size_t(idx) < sys.size() ? sys[size_t(idx)].second : hj::Opt();
    if (what == "session") {
      while (!ops[t].session) t = (t + 1) % ops.size();
      ops[t].session(r, o);
    } else {
      ops[t].enc(r, o);
      ops[t].dec(r, o);
    }
  });
}
