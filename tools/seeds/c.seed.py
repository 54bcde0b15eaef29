seed("s21-list-tainted","C24",
 [("src/util/list.h","		LIST_concatenateUnshiftD(&dst->listD, &src->listD);\n		dst->tainted = dst->tainted || src->tainted;\n","		LIST_concatenateUnshiftD(&dst->listD, &src->listD);\n		dst->tainted = src->tainted;\n")],
 r'''
#include <stdio.h>
#include <stddef.h>
#include <string.h>
#include "util/list.h"
struct N { struct LIST_LinkD l; };
int main()
{
	struct LIST_ListDC a, b, c; struct N n[6]; int i;
	LIST_init(&a); LIST_init(&b); LIST_init(&c);
	for (i = 0; i < 4; ++i) LIST_push(&a, LIST_link(&n[i], l));
	LIST_push(&c, LIST_link(&n[4], l));
	LIST_separateFrom(&a, &b, LIST_link(&n[1], l));
	/* a: 1 element, b: 3 elements, both not counted yet */
	LIST_concatenateUnshift(&a, &c);
	printf("length %d (2 expected)\n", (int)LIST_length(&a));
	return LIST_length(&a) != 2;
}
''', "a counted list which was cut is prepended by another one before its length was queried", "the length of the list is wrong from then on",
 [])
