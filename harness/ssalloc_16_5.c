/* C26: 16 elements of 5 bytes */
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE 5
#include "ssalloc_body.h"
void C26_init_16_5(void) { do_init(); }
void C26_alloc_16_5(void) { do_alloc(); }
void C26_free_16_5(void) { do_free(); }
void C26_foreign_16_5(void) { do_foreign(); }
