/* Whole-message logging: one level of the library's logger (default) or of the bundled clog library (UNIT_CLOG).
 * FN: the function of the level; PREFIX / PREFIX_FORMAT: documented prefix; STREAM: documented descriptor.
 * The formatting functions are stubs that know the length of the text (any int, negative = error) and one
 * arbitrary character of it: what is shown for that character holds for all of them. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>

typedef struct {
	bool module, no_memory;
	int text_length;   /* result of formatting the message */
	int prefix_length; /* result of formatting the module prefix */
	uint32_t text_at, prefix_at;
	char text_char, prefix_char;
} inputs_t;
VF_INPUTS(inputs_t)

/* argument lists: consumed by formatting, may be copied before */
typedef struct { unsigned used; } vf_args[1];
static unsigned OPEN_COPIES;
#undef va_list
#undef va_copy
#undef va_end
#undef va_start
#define va_list vf_args
#define va_copy(to, from) ((to)[0] = (from)[0], OPEN_COPIES++)
#define va_end(a) ((void)(a), (void)OPEN_COPIES--)
#define va_start(a, last) ((a)[0].used = 0, OPEN_COPIES++)

static struct { unsigned writes, allocations, frees; bool out_of_memory; void* heap; } G;
static const char FORMAT[] = "message";
static const char MODULE[] = "module";

static void put_text(char* to, size_t room, int length, uint32_t at, char c) {
	if (length < 0 || room == 0) return;
	size_t last = (size_t)length < room - 1 ? (size_t)length : room - 1;
	if (at < last) to[at] = c;
	to[last] = '\0';
}
static int vf_vsnprintf(char* to, size_t room, const char* format, vf_args args) {
	VF_ASSERT(message_format, format == FORMAT);
	VF_ASSERT(arguments_not_consumed_before, args[0].used == 0);
	args[0].used = 1;
	put_text(to, room, IN.text_length, IN.text_at, IN.text_char);
	return IN.text_length;
}
#ifdef UNIT_CLOG
static int vf_snprintf(char* to, size_t room, const char* format, const char* module) {
	VF_ASSERT(prefix_format, strcmp(format, PREFIX_FORMAT) == 0);
	VF_ASSERT(prefix_module, module == MODULE);
	put_text(to, room, IN.prefix_length, IN.prefix_at, IN.prefix_char);
	return IN.prefix_length;
}
#define snprintf vf_snprintf
#define PREFIX_LENGTH (IN.module ? (IN.prefix_length < 0 ? 0 : (size_t)IN.prefix_length) : sizeof(PREFIX) - 1)
#else
#define PREFIX_LENGTH (sizeof(PREFIX) - 1)
#endif
static ssize_t vf_write(int file, const void* data, size_t size) {
	const char* p = data;
	size_t i;
	G.writes++;
	VF_ASSERT(right_stream, file == STREAM);
	VF_ASSERT(whole_message, size == PREFIX_LENGTH + (size_t)IN.text_length + 1);
#ifdef UNIT_CLOG
	if (IN.module) {
		VF_ASSERT(module_prefix, IN.prefix_at >= PREFIX_LENGTH || p[IN.prefix_at] == IN.prefix_char);
	} else
#endif
	{
		for (i = 0; i < sizeof(PREFIX) - 1; i++)
			VF_ASSERT(prefix_text, p[i] == PREFIX[i]);
	}
	VF_ASSERT(message_text, IN.text_at >= (size_t)IN.text_length || p[PREFIX_LENGTH + IN.text_at] == IN.text_char);
	VF_ASSERT(newline, p[PREFIX_LENGTH + (size_t)IN.text_length] == '\n');
	return (ssize_t)size;
}
static void* vf_malloc(size_t size) {
	void* p = IN.no_memory ? NULL : malloc(size);
	if (p == NULL) {
		G.out_of_memory = true;
		return NULL;
	}
	G.allocations++;
	G.heap = p;
	return p;
}
static void vf_free(void* p) {
	if (p == NULL) return;
	VF_ASSERT(releases_its_memory, p == G.heap && G.allocations == G.frees + 1);
	G.frees++;
	free(p);
}
#define vsnprintf vf_vsnprintf
#define write vf_write
#define malloc vf_malloc
#define free vf_free

#define MAX_LENGTH (sizeof(void*) == 8 ? 1 << 29 : 1 << 20)
#define LOG(REQ, ENS, RET) \
	REQ(length_fits, IN.text_length <= MAX_LENGTH && IN.prefix_length <= MAX_LENGTH) \
	ENS(at_most_once, G.writes <= 1) \
	ENS(written_unless_impossible, G.writes == 1 || IN.text_length < 0 || G.out_of_memory) \
	ENS(short_message_needs_no_memory, G.writes == 1 || IN.text_length < 0 || PREFIX_LENGTH + (size_t)IN.text_length + 1 >= 1024) \
	ENS(format_error_writes_nothing, IN.text_length >= 0 || G.writes == 0) \
	ENS(released, G.frees == G.allocations) \
	ENS(argument_copies_ended, OPEN_COPIES == 0)

#ifdef UNIT_CLOG
#include <clog.h>
void FN(const char* module, const char* format, va_list args) VF_CONTRACT(LOG) VF_ASSIGNS(G, OPEN_COPIES, __CPROVER_object_whole(args)) ;
#include <deps/clog/src/clog.c>
#define CALL(args) FN(IN.module ? MODULE : NULL, FORMAT, args)
#else
#include <cpuinfo/log.h>
void FN(const char* format, va_list args) VF_CONTRACT(LOG) VF_ASSIGNS(G, OPEN_COPIES, __CPROVER_object_whole(args));
#include <log.c>
#define CALL(args) FN(FORMAT, args)
#endif

void harness(void) {
	vf_args args = {{0}};
	VF_LOAD();
	VF_PRE(LOG);
	memset(&G, 0, sizeof G);
	OPEN_COPIES = 0;
	VF_COVER(exactly_full, PREFIX_LENGTH + (size_t)IN.text_length + 1 == 1024);
	VF_COVER(large, IN.text_length == 100000);
	VF_COVER(error, IN.text_length < 0);
	CALL(args);
	VF_POST(LOG, 0);
	VF_REACH(end);
}
