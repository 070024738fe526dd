#include "hdap.h"
static bool reg = [] {
#define X(T) { auto o = hdap::make<dap::T>(#T); \
    o.session = [](hj::Rng& r, hj::Opt p) { hdap::event<dap::T>(#T, r, p); }; dapOps().push_back(o); }
  DAP_EVENTS(X)
#undef X
#define X(T) dapOps().push_back(hdap::make<dap::T>(#T));
  DAP_STRUCTS(X)
  return true;
}();
