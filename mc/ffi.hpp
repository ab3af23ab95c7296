// A C function which records its registers: every signature can be imported and
// what the callee receives is read as the ABI defines (System V, x86-64).
#pragma once
#include "common.hpp"

extern "C" {
inline uint64_t cap_w[6]; inline double cap_x[8]; inline uint64_t cap_rax; inline double cap_xmm0; inline int cap_calls;
inline std::function<void()> *cap_fn = nullptr;
inline __attribute__((used)) void cap_body() { cap_calls++; if (cap_fn) (*cap_fn)(); }
void cap_entry(void);
}
__asm__(R"(
.text
.globl cap_entry
.type cap_entry,@function
cap_entry:
  pushq %rbp
  movq %rsp, %rbp
  movq cap_w@GOTPCREL(%rip), %rax
  movq %rdi, 0(%rax)
  movq %rsi, 8(%rax)
  movq %rdx, 16(%rax)
  movq %rcx, 24(%rax)
  movq %r8, 32(%rax)
  movq %r9, 40(%rax)
  movq cap_x@GOTPCREL(%rip), %rax
  movsd %xmm0, 0(%rax)
  movsd %xmm1, 8(%rax)
  movsd %xmm2, 16(%rax)
  movsd %xmm3, 24(%rax)
  movsd %xmm4, 32(%rax)
  movsd %xmm5, 40(%rax)
  andq $-16, %rsp
  call cap_body@PLT
  movq cap_xmm0@GOTPCREL(%rip), %rcx
  movsd (%rcx), %xmm0
  movq cap_rax@GOTPCREL(%rip), %rcx
  movq (%rcx), %rax
  leave
  ret
)");

namespace ff {
inline std::string asked;      // names given to the resolver
inline void *resolver(void *, const char *name) { asked += std::string(name) + ";"; return std::string(name).compare(0, 3, "nof") == 0 ? NULL : (void *) cap_entry; }
inline const char *tname(char t) {
  switch (t) { case 'i': return "int"; case 'b': return "bool"; case 'd': return "double"; case 'f': return "float"; case 's': return "char *"; case 'p': return "void *"; case 'm': return "struct mg_str *"; case 'v': return "void"; }
  return "?";
}
}  // namespace ff
