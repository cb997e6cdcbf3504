// Every matrix access, shape and block request of the code under test is an obligation (included before every source).
#pragma once
#ifdef __cplusplus
#include <stdexcept>
extern "C" void symapi_assert(bool c, const char *label);
[[noreturn]] __attribute__((noinline, cold)) inline void sym_eigen_fail(const char *e) { symapi_assert(false, "matrix access or shape out of range"); throw std::out_of_range(e); }
#define eigen_assert(...) (__builtin_expect(!!(__VA_ARGS__), 1) ? (void)0 : sym_eigen_fail(#__VA_ARGS__))
#endif
