#include "hdap.h"
static bool reg = [] {
#define X(T) dapOps().push_back(hdap::make<dap::T>(#T));
  DAP_RESPONSES(X)
  return true;
}();
