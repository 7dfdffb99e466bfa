// SHA-512/256 (FIPS 180-4), independent of the library the code uses.
#ifndef SHA_HPP
#define SHA_HPP
#include <cstdint>
#include <cstring>
#include <string>
namespace model {
inline std::string sha512_256(const std::string& in) {
    static const uint64_t K[80] = {
        0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538,
        0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe,
        0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235,
        0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65,
        0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5, 0x983e5152ee66dfab,
        0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725,
        0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed,
        0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
        0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218,
        0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8, 0x19a4c116b8d2d0c8, 0x1e376c085141ab53,
        0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373,
        0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
        0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c,
        0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6,
        0x113f9804bef90dae, 0x1b710b35131c471b, 0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc,
        0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817};
    auto run = [&](uint64_t* h, const std::string& msg) {
        std::string m = msg;
        uint64_t bits = (uint64_t)msg.size() * 8;
        m += (char)0x80;
        while (m.size() % 128 != 112) m += (char)0;
        for (int i = 0; i < 8; ++i) m += (char)0;
        for (int i = 7; i >= 0; --i) m += (char)(bits >> (8 * i));
        auto rot = [](uint64_t x, int n) { return x >> n | x << (64 - n); };
        for (size_t at = 0; at < m.size(); at += 128) {
            uint64_t w[80];
            for (int i = 0; i < 16; ++i) {
                w[i] = 0;
                for (int k = 0; k < 8; ++k) w[i] = w[i] << 8 | (unsigned char)m[at + i * 8 + k];
            }
            for (int i = 16; i < 80; ++i) {
                uint64_t a = rot(w[i - 15], 1) ^ rot(w[i - 15], 8) ^ w[i - 15] >> 7;
                uint64_t b = rot(w[i - 2], 19) ^ rot(w[i - 2], 61) ^ w[i - 2] >> 6;
                w[i] = w[i - 16] + a + w[i - 7] + b;
            }
            uint64_t v[8];
            memcpy(v, h, sizeof v);
            for (int i = 0; i < 80; ++i) {
                uint64_t s1 = rot(v[4], 14) ^ rot(v[4], 18) ^ rot(v[4], 41);
                uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
                uint64_t t1 = v[7] + s1 + ch + K[i] + w[i];
                uint64_t s0 = rot(v[0], 28) ^ rot(v[0], 34) ^ rot(v[0], 39);
                uint64_t t2 = s0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for (int k = 7; k > 0; --k) v[k] = v[k - 1];
                v[4] += t1;
                v[0] = t1 + t2;
            }
            for (int i = 0; i < 8; ++i) h[i] += v[i];
        }
    };
    static const uint64_t H0[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
                                   0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};
    uint64_t h[8];
    for (int i = 0; i < 8; ++i) h[i] = H0[i] ^ 0xa5a5a5a5a5a5a5a5;
    run(h, "SHA-512/256");  // makes the initial value
    run(h, in);
    std::string r;
    for (int i = 0; i < 4; ++i)
        for (int k = 7; k >= 0; --k) r += (char)(h[i] >> (8 * k));
    return r;
}
inline std::string hex(const std::string& b) {
    std::string r;
    for (unsigned char c : b) {
        r += "0123456789abcdef"[c >> 4];
        r += "0123456789abcdef"[c & 15];
    }
    return r;
}
}  // namespace model
#endif
