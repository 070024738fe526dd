#include "hdap.h"
static bool reg = [] {
#define X(T) { auto o = hdap::make<dap::T>(#T); \
    o.session = [](hj::Rng& r, hj::Opt p) { static std::string rn = std::string(#T).substr(0, strlen(#T) - 7) + "Response"; \
      hdap::request<dap::T, dap::T::Response>(#T, rn.c_str(), r, p); }; dapOps().push_back(o); }
  DAP_REQUESTS1(X)
  return true;
}();
