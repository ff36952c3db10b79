/* C26: 1 elements of 1 bytes */
#define SSA_MAXELEM 1
#define SSA_ELEMSIZE 1
#include "ssalloc_body.h"
void C26_init_1_1(void) { do_init(); }
void C26_alloc_1_1(void) { do_alloc(); }
void C26_free_1_1(void) { do_free(); }
void C26_foreign_1_1(void) { do_foreign(); }
