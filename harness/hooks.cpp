// Linked into the hooked build only: the library is compiled with
// -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores, which calls these functions
// at every edge and before every memory access of the library.
#include <stdint.h>
extern "C" void vh_hook_point();
bool hooks_compiled_in() { return true; }
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { vh_hook_point(); }
#define A(n, t) void __sanitizer_cov_load##n(t *) { vh_hook_point(); } void __sanitizer_cov_store##n(t *) { vh_hook_point(); }
A(1, uint8_t) A(2, uint16_t) A(4, uint32_t) A(8, uint64_t) A(16, void)
}
// Optimised builds: check.py inserts a call of vh_step before every instruction of the library that accesses
// memory. It preserves all registers that code without floating point and vector instructions uses.
asm(R"(
    .text
    .globl vh_step
    .type vh_step, @function
vh_step:
    pushfq
    push %rax
    push %rcx
    push %rdx
    push %rsi
    push %rdi
    push %r8
    push %r9
    push %r10
    push %r11
    push %rbp
    mov %rsp, %rbp
    and $-16, %rsp
    cld
    call vh_hook_point
    mov %rbp, %rsp
    pop %rbp
    pop %r11
    pop %r10
    pop %r9
    pop %r8
    pop %rdi
    pop %rsi
    pop %rdx
    pop %rcx
    pop %rax
    popfq
    ret
    .size vh_step, .-vh_step
)");
