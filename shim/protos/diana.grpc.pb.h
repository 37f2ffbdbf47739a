// stand-in for the generated service: see grpcpp/grpcpp.h
#pragma once
#include "protos/diana.pb.h"

#include <grpcpp/grpcpp.h>
namespace sse {
namespace diana {
SHIM_GRPC_SERVICE(Diana)
} // namespace diana
} // namespace sse
