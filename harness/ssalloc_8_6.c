/* C26: 8 elements of 6 bytes */
#define SSA_MAXELEM 8
#define SSA_ELEMSIZE 6
#include "ssalloc_body.h"
void C26_init_8_6(void) { do_init(); }
void C26_alloc_8_6(void) { do_alloc(); }
void C26_free_8_6(void) { do_free(); }
void C26_foreign_8_6(void) { do_foreign(); }
