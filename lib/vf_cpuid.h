/*
 * The CPUID and XGETBV instructions are replaced by ghost functions of the unit: whatever the
 * instruction returns is an input. Everything else of x86/cpuid.h is the real text.
 */
#pragma once
#include <cpuinfo.h>
#include <x86/api.h>
#define cpuid vf_real_cpuid
#define cpuidex vf_real_cpuidex
#define xgetbv vf_real_xgetbv
#include <x86/cpuid.h>
#undef cpuid
#undef cpuidex
#undef xgetbv
static struct cpuid_regs vf_cpuid(uint32_t eax, uint32_t ecx);
static uint64_t vf_xgetbv(uint32_t ext_ctrl_reg);
static inline struct cpuid_regs cpuid(uint32_t eax) { return vf_cpuid(eax, 0); }
static inline struct cpuid_regs cpuidex(uint32_t eax, uint32_t ecx) { return vf_cpuid(eax, ecx); }
static inline uint64_t xgetbv(uint32_t r) { return vf_xgetbv(r); }
