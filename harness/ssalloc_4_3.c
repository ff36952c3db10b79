/* C26: 4 elements of 3 bytes */
#define SSA_MAXELEM 4
#define SSA_ELEMSIZE 3
#include "ssalloc_body.h"
void C26_init_4_3(void) { do_init(); }
void C26_alloc_4_3(void) { do_alloc(); }
void C26_free_4_3(void) { do_free(); }
void C26_foreign_4_3(void) { do_foreign(); }
