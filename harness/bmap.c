/* C10, C13: bmap with tglist values.  Keys are only compared, so one key between/at/outside every
   existing key covers all orderings. */
#include "bmap_body.h"
void C10_bmap_find(void) { do_find(); }
void C10_bmap_insert(void) { do_insert(0); }
void C10_bmap_insert_nocheck(void) { do_insert(1); }
void C10_bmap_delete(void) { do_delete(); }
void C10_bmap_setvalue(void) { do_setvalue(); }
void C10_bmap_fini(void) { do_fini(); }
void C13_bmap_new(void) { do_new(); }
