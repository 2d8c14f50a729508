// Verification interface: one set of contracts, two executions.
//  * VC_SYMBOLIC: compiled to LLVM IR together with the real code of /repo; dv/ generates the verification conditions.
//  * otherwise:   compiled natively; the same contracts are executed on concrete values (replay of counterexamples,
//                 bounded enumeration).  Values come from a tape (native/vc_native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
uint64_t vc_any(unsigned bits, const char* name);             // arbitrary value of `bits` bits; "#..." = size-like
unsigned __int128 vc_any128(unsigned bits, const char* name);
void vc_assume(bool c);                                       // requires
void vc_assert(bool c, const char* label);                    // ensures
void vc_invariant(bool c, const char* label);                 // representation / loop invariant
[[noreturn]] void vc_fail(const char* label);                 // must be unreachable
void vc_cover(const char* label);                             // must be reachable (vacuity guard)
uint64_t vc_pick(uint64_t lo, uint64_t hi, const char* name); // arbitrary value of a small range, enumerated
uint64_t vc_conc(uint64_t v);                                 // case split on every value of v
void vc_bytes(void* p, size_t n, const char* name);           // n arbitrary bytes (n concrete)
void* vc_symarray(size_t n, size_t es, const char* name);     // heap array of n arbitrary elements, n unbounded
void* vc_opaque(const char* name);                            // pointer that must never be dereferenced
size_t vc_live();                                             // number of live heap blocks
bool vc_alive(const void* p);
void vc_fail_new(int n);                                      // the n-th next allocation throws std::bad_alloc; negative: none
uint64_t vc_fold(unsigned id, uint64_t n);                    // uninterpreted ghost sequence (symbolic mode only)
uint64_t vc_ghost_fn(unsigned id, uint64_t a, uint64_t b);    // uninterpreted ghost function (symbolic mode only)
}

// VC_USE(fn, pattern): in this contract, calls of the functions whose demangled name matches the pattern are checked
// against the contract written as vcs__fn instead of the body (which is verified by its own contract).  If no function
// matches (the code was restructured), the bodies are executed.  The value is the number of functions substituted.
#ifdef VC_SYMBOLIC
extern "C" int vc_use(const char* summary, const char* pattern);
#define VC_USE(fn, pattern) vc_use("vcs__" #fn, pattern)
#define VC_SUMMARY(fn) extern "C" __attribute__((used)) auto vcs__##fn
#else
#define VC_USE(fn, pattern) 0
#define VC_SUMMARY(fn) [[maybe_unused]] static auto vcs__##fn
#endif

#ifdef VC_SYMBOLIC
#define VC_REGISTER(name)
#else
struct VcReg {
    VcReg(const char* name, void (*fn)(int), const char* meta);
};
#define VC_REGISTER(name) static VcReg vcreg__##name(#name, &vc__##name, vcm__##name);
#endif

// kind: "proof"   - every obligation is generated for the full input domain
//       "bounded" - as proof, but for shapes up to the stated bound
//       "enum"    - executed natively over an enumerated / sampled bounded space, never counted as proved
#define VC_CONTRACT(name, ncases, kind, target, text)                                                     \
    extern "C" void vc__##name(int vc_case);                                                              \
    extern "C" __attribute__((used)) const char vcm__##name[];                                            \
    const char vcm__##name[] = #ncases "\x1f" kind "\x1f" target "\x1f" text;                             \
    VC_REGISTER(name)                                                                                     \
    extern "C" __attribute__((used)) void vc__##name([[maybe_unused]] int vc_case)

#define ENSURES(c) vc_assert(bool(c), #c)
#define ENSURES_(c, label) vc_assert(bool(c), label)
#define REQUIRES(c) vc_assume(bool(c))
#define INVARIANT(c) vc_invariant(bool(c), #c)

template <class T>
inline T vc_val(const char* name)
{
    if constexpr (std::is_same_v<T, bool>)
        return vc_any(1, name) != 0;
    else if constexpr (sizeof(T) == 16)
        return static_cast<T>(vc_any128(128, name));
    else
        return static_cast<T>(vc_any(sizeof(T) * 8, name));
}

// runs f; true if it threw E (anything else propagates and is reported as an unexpected exception)
template <class E, class F>
inline bool vc_throws(F&& f)
{
    try {
        f();
    }
    catch (const E&) {
        return true;
    }
    return false;
}
