// stand-in for the generated service: see grpcpp/grpcpp.h
#pragma once
#include "protos/sophos.pb.h"

#include <grpcpp/grpcpp.h>
namespace sse {
namespace sophos {
SHIM_GRPC_SERVICE(Sophos)
} // namespace sophos
} // namespace sse
