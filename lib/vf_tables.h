/* Allocation with a ghost record of what was asked for and given back. For the verifier every table has room for N
 * elements, whatever is asked for; vf_asked tells how many that was.
 * VF_FAIL: number of the allocation that fails. */
#pragma once
#include <stdlib.h>
#include <string.h>
#define VF_SITES 16       /* calls of calloc in the text, told apart to keep tables of different kinds apart */
#define VF_ALLOCATIONS (VF_SITES + 4) /* the last ones are for further calls of the same text */
static struct { void* at; size_t count; bool freed; } vf_table[VF_ALLOCATIONS];
static uint8_t vf_asked_tables, vf_next = VF_SITES;

#ifdef VF_CBMC
/* element: text of the size argument, used only to give memory the type of the table */
static void* vf_pool(size_t size, const char* element, uint8_t k);
static bool vf_mentions(const char* text, const char* word) {
	uint8_t n = 0;
	for (; *text != 0; text++) {
		n = *text == word[n] ? n + 1 : *text == word[0];
		if (word[n] == 0 && text[1] == ')') return true;
	}
	return false;
}
#endif
static void* vf_allocate(size_t count, size_t size, const char* element, unsigned site) {
	uint8_t k = site;
	VF_FITS(allocations, site < VF_SITES);
	if (vf_table[site].at != NULL) {
		k = vf_next++;
		VF_FITS(further_allocations, k < VF_ALLOCATIONS);
	}
	if (vf_asked_tables++ == VF_FAIL) return NULL;
#ifdef VF_CBMC
	vf_table[k].at = vf_pool(size, element, k);
#else
	vf_table[k].at = calloc(count, size);
#endif
	vf_table[k].count = count;
	return vf_table[k].at;
}
#define vf_calloc(count, size) vf_allocate(count, size, #size, __COUNTER__ - VF_FIRST_SITE)
/* memory is kept for the postconditions, only the ghost record tells that it was given back */
static void vf_free(void* p) {
	bool found = p == NULL;
	for (uint8_t k = 0; k < VF_ALLOCATIONS; k++)
		if (p != NULL && !found && vf_table[k].at == p && !vf_table[k].freed) {
			found = true;
			vf_table[k].freed = true;
		}
	VF_ASSERT(only_allocated_tables_are_freed, found);
}
/* elements asked for in the table at p */
static size_t vf_asked(const void* p) {
	size_t n = 0;
	for (uint8_t k = 0; k < VF_ALLOCATIONS; k++)
		if (p != NULL && vf_table[k].at == p) n = vf_table[k].count;
	return n;
}
/* p is an allocated table that has not been freed */
static bool vf_live(const void* p) {
	bool live = false;
	for (uint8_t k = 0; k < VF_ALLOCATIONS; k++)
		if (p != NULL && vf_table[k].at == p && !vf_table[k].freed) live = true;
	return live;
}
static uint8_t vf_live_tables(void) {
	uint8_t n = 0;
	for (uint8_t k = 0; k < VF_ALLOCATIONS; k++)
		if (vf_table[k].at != NULL && !vf_table[k].freed) n++;
	return n;
}
