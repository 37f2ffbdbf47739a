// in-process stand-in for gRPC: see grpcpp/grpcpp.h
#pragma once
#include <grpcpp/grpcpp.h>
