/* C24: the four list kinds against plain sequences. */
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
#ifdef NO_GENERIC
#undef HAS_GENERIC
#endif
#include <string.h>
#include <stdlib.h>
#include "util/list.h"
#include "vf.h"
enum { NIT = 40 };
#define K DC
#define DBL 1
#define CNT 1
#define LN struct LIST_LinkD
#include "list_body.inc"
#ifndef NO_GENERIC
#define K D
#define DBL 1
#define CNT 0
#define LN struct LIST_LinkD
#include "list_body.inc"
#define K S
#define DBL 0
#define CNT 0
#define LN struct LIST_LinkS
#include "list_body.inc"
#define K SC
#define DBL 0
#define CNT 1
#define LN struct LIST_LinkS
#include "list_body.inc"
#endif
void vf_init(void) {}
void vf_case(uint64_t n)
{
#ifdef NO_GENERIC
	run_DC();
#else
	switch (n % 4) { case 0: run_D(); break; case 1: run_DC(); break; case 2: run_S(); break; default: run_SC(); }
#endif
}
