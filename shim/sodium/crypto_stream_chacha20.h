// original ChaCha20 (64-bit nonce, 64-bit counter), as in libsodium
#pragma once
#include <sse/crypto/shim_core.hpp>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U

inline int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m,
                                      unsigned long long mlen, const unsigned char* n,
                                      const unsigned char* k)
{
    uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    memcpy(in + 4, k, 32);
    in[12] = in[13] = 0;
    memcpy(in + 14, n, 8);
    while (mlen > 0) {
        uint32_t s[16];
        memcpy(s, in, sizeof(s));
        sse::crypto::shim::permute<20>(s);
        for (int i = 0; i < 16; i++) s[i] += in[i];
        size_t l = mlen < 64 ? static_cast<size_t>(mlen) : 64;
        for (size_t i = 0; i < l; i++) {
            c[i] = (m != nullptr ? m[i] : 0) ^ reinterpret_cast<uint8_t*>(s)[i];
        }
        c += l;
        m = m != nullptr ? m + l : nullptr;
        mlen -= l;
        if (++in[12] == 0) ++in[13];
    }
    return 0;
}
inline int crypto_stream_chacha20(unsigned char* c, unsigned long long clen,
                                  const unsigned char* n, const unsigned char* k)
{
    return crypto_stream_chacha20_xor(c, nullptr, clen, n, k);
}
