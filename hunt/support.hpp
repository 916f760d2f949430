// Keys, independent cryptography and stand-ins for the clock and the resolver.
#pragma once
#include "hunt.hpp"
#include "oracle.hpp"
#include <memory>
extern const S K_R1PUB, K_R2PUB, K_R1DER, K_R2DER, K_ECPUB, K_EDSPKI, K_PSSPUB, K_R1PEM, K_R1TPEM, K_ECPEM;
extern long long g_time;                 // >= 0: what time() returns
extern S g_answer; extern int g_answer_len; extern int g_herr; extern S g_query; extern bool g_dns; extern unsigned char g_fill;
struct rsa_st;
rsa_st* rsa_priv(int which);             // 1, 2 : private key (shared, do not free)
S sha(bool sha256, const S& data);
S rsa_sign(int which, bool sha256, const S& data);
S ed_seed(int which); S ed_pk(int which); S ed_sk(int which);
S ed_sign(int which, const S& msg);
bool rsa_ok(int which, bool sha256, const S& data, const S& sig);
bool ed_ok(int which, const S& msg, const S& sig);
namespace DKIM { class Header; }
std::shared_ptr<DKIM::Header> mkheader(const S& field);
S num2(unsigned long x);
