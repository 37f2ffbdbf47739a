#pragma once
#include <cstddef>
#include <cstring>
inline void sodium_memzero(void* const p, const size_t n)
{
    memset(p, 0, n);
}
