/* C10, C13: bmap with tgilist values */
#define BMAP_USE_TGILIST
#include "bmap_body.h"
void C10_bmapi_find(void) { do_find(); }
void C10_bmapi_insert(void) { do_insert(0); }
void C10_bmapi_insert_nocheck(void) { do_insert(1); }
void C10_bmapi_delete(void) { do_delete(); }
void C10_bmapi_setvalue(void) { do_setvalue(); }
void C10_bmapi_fini(void) { do_fini(); }
