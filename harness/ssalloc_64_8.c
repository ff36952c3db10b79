/* C26: 64 elements of 8 bytes */
#define SSA_MAXELEM 64
#define SSA_ELEMSIZE 8
#include "ssalloc_body.h"
void C26_init_64_8(void) { do_init(); }
void C26_alloc_64_8(void) { do_alloc(); }
void C26_free_64_8(void) { do_free(); }
void C26_foreign_64_8(void) { do_foreign(); }
