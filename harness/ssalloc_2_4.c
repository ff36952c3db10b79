/* C26: 2 elements of 4 bytes */
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE 4
#include "ssalloc_body.h"
void C26_init_2_4(void) { do_init(); }
void C26_alloc_2_4(void) { do_alloc(); }
void C26_free_2_4(void) { do_free(); }
void C26_foreign_2_4(void) { do_foreign(); }
