From 35e5ffa56d9a1b8f70c2e08b9626ed78d58d3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 01/47] fix: sblist_insert: reject positions behind the end of
 the list

pos > count made the memmove length underflow.
---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From e846637f4e66c123c888025983c903aa9152e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 02/47] fix: sblist: really grow when blockitems is 0

lists made by sblist_new_from_data (blockitems 0), and lists with items bigger
than a page, were "grown" by zero items and then written past their end.
---
 src/sblist/sblist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..66bfc39 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -58,9 +58,11 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t blockitems = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!blockitems) blockitems = 1;
+		temp = realloc(l->items, (l->capa + blockitems) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += blockitems;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From 69c2329b855e1f80c769bf8f5492d74a11a08e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 03/47] fix: sblist_free_values: free the stored pointers, not
 the slots

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..dda388d 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**) sblist_get(l, i));
 }
-- 
2.43.0


From cf283609bf9e26c1f076b5296160c3af2f172b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 04/47] fix: tlist_get: return NULL for an index out of range

it returned the address behind a null node, and truncated the index.
---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From be6071c9f5de642021a65d6b35a96cf6310511b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 05/47] fix: tlist_delete_deep: free the stored pointer, not
 the node's inside

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..b8333fe 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**) data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 6ac50ec8b8a86f07025e71ee2253b4a38327be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 06/47] fix: hashlist_add: return -1, as documented, when
 adding fails

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From ffa9f336b5d4406e4dc35f1bcd7c935521288e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 07/47] fix: hashlist_next: do not stop at a bucket whose list
 is empty

a failed add leaves such a bucket behind.
---
 src/hashlist/hashlist_iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..9893b7f 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -21,7 +21,8 @@ void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	iter->pos++;
 	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
-		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
+		do if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
+		while(sblist_empty(h->buckets[iter->bucket_iter.pos]));
 	}
 	return sblist_get(h->buckets[iter->bucket_iter.pos], iter->pos);
 }
-- 
2.43.0


From 433a8a34c81dc2a59aa407fe72b0ad8e177595a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 08/47] fix: stringptr_copy: return NULL when out of memory

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From f83a3e67b06302eb53920fe9b4697b1ff6341031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 09/47] fix: stringptr_splitc/splits: fail when a part cannot
 be added

they returned a list that silently lacked parts.
---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..60b413a 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..9015db8 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || stringptr_here(buf, i, delim)) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size;
-- 
2.43.0


From 170bb4d8aec920cce3ff4bb997d247815449118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 10/47] fix: stringptr_splits: do not loop forever on an empty
 delimiter

---
 src/stringptrlist/stringptr_splits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 9015db8..642125c 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,14 +12,14 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
 				stringptrlist_free(result);
 				return NULL;
 			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
-			i += delim->size;
+			i += delim->size ? delim->size : 1;
 		} else
 			i++;
 	}
-- 
2.43.0


From fbaa39948c996778e42133d5620346cccc7e90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 11/47] fix: stringptr_replace: free the items of the temporary
 list, too

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 02f7949bd990a3753b4d55d474289f840155b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 12/47] fix: stringptrlist_add_strdup: free the copy if it
 cannot be added

---
 src/stringptrlist/stringptrlist_add_strdup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..c926d5f 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,7 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(stringptrlist_add(l, nu, stringptr_getsize(s))) return 1;
+	free(nu);
+	return 0;
 }
-- 
2.43.0


From d0b75d56948371a8c0be868590055753583224db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 13/47] fix: stringptr_here: do not look behind the end of the
 haystack

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From c41e1e868a961da8b142c51c83640d2333299491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 14/47] fix: stringptr_fromfile: do not spin when the file is
 shorter than announced

---
 src/stringptr/stringptr_fromfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..ebfbac8 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -24,7 +24,7 @@ stringptr* stringptr_fromfile(char* filename) {
 
 	while(bufpos < size) {
 		bytesleft = size - bufpos;
-		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) < 0) {
+		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) <= 0) {
 			stringptr_free(buf);
 			buf = NULL;
 			goto FEXIT;
-- 
2.43.0


From a2ce9cb0f128a181427382b89189f765a2b08031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 15/47] fix: stringptr_format: return NULL if formatting fails

it returned a string of size -1, and leaked it if fmt was NULL.
---
 src/stringptr/stringptr_format.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..d905f9a 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -5,11 +5,14 @@
 
 stringptr* stringptr_format(char* fmt, ...) {
 	const size_t BUF_SIZE = 1000;
-	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	ssize_t size;
+	stringptr* result = fmt ? stringptr_new(BUF_SIZE) : NULL;
+	if(!result) return NULL;
 	va_list ap;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
 	va_end(ap);
+	if(size < 0) stringptr_free(result);
+	else result->size = size;
 	return result;
 }
-- 
2.43.0


From 194a823c032d559e314f705b7964b36a99e271a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 16/47] fix: ulz_vsnprintf: do not touch a buffer of size 0

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..10d661d 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -7,7 +7,7 @@
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest && destsize ? dest + destsize - 1: dest;
 	char cbuf[32];
 	uint64_t inn;
 	size_t i,j, width = 0;
@@ -106,6 +106,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 4130316e27a5deb26dae4a8969924f99189caa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 17/47] fix: ulz_vsnprintf: parse multi-digit widths, reject
 too big ones

a width of, say, 190 overflowed the conversion buffer, and 12 was taken for 1.
---
 src/format/ulz_vsnprintf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 10d661d..39062db 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -31,7 +31,10 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) {
+						width = width * 10 + (a[j] - '0');
+						if(width > sizeof(cbuf) - 2) goto fail; // sign and terminator
+					}
 					a += i - 1;
 					goto checkmod;
 				case 's':
-- 
2.43.0


From f33f49262f000bb3447d553c99f638fac3ba119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 18/47] fix: ulz_vsnprintf: do not sign-extend the argument of
 %x

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 39062db..3568434 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -57,7 +57,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					if(width) nflags |= NTS_PAD;
@@ -96,7 +95,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 38bf48c50132f631350c81adefde1214e053d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 19/47] fix: ulz_printf/ulz_fprintf: write nothing if
 formatting failed

result -1 was passed to write as size.
---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From e9cc3a9deb8b11451ae70c32f4f3c6424e2712b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 20/47] fix: numberToString: honour a missing NTS_PAD together
 with other flags

---
 src/strlib/numberToString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..0020f75 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,7 +52,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
+	if (!(flags & NTS_PAD)) {
 		for (i = 0; i < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
-- 
2.43.0


From 8daf0849a9a7093e5466189106e4935b6f3103a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 21/47] fix: numberToString: reject base 0

---
 src/strlib/numberToString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index 0020f75..15ba570 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -16,7 +16,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	size_t tmp, len = 0, i;
 	int shr = 0;
 	
-	if(base % 2 || base > conv_cypher_len) return NULL;
+	if(!base || base % 2 || base > conv_cypher_len) return NULL;
 	
 	int hasSign = (flags & NTS_SIGNED_TYPE) && number >> 63 == 1;
 	if(hasSign) number = ~number + 1;
-- 
2.43.0


From 10d5e0cf950d649c0b230885de1780a3c3057cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 22/47] fix: utoa: numbers above INT_MAX wrote in front of the
 buffer

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..a1b1f91 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	unsigned lentest;
+	int len = 0, i, start = 0;
 
 	lentest = number;
 	do {
-- 
2.43.0


From d71560ddd3c959de0bca4dea4290f5923b7a932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 23/47] fix: itoa: convert INT_MIN

---
 src/strlib/itoa.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..028cdff 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -8,11 +8,12 @@
   this function deliberately doesn't use pointer arithmetic
   because it was written for agscc originally. */
 
-char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+char *itoa(int num, char* buffer) {
+	unsigned lentest, number = num;
+	int len = 0, i, start;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(num < 0) {
+		number = -number;
 		buffer[0] = '-';
 		start = 1;
 	} else
-- 
2.43.0


From 110685e1cd3164d3670aee44867dc1f4f61de344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 24/47] fix: strstr_uc/strstar: resume the search right behind
 the failed start

a match overlapping a partial match was missed.
---
 src/strlib/strstar.c   | 2 +-
 src/strlib/strstr_uc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From aaba0398ffceeb71f81429bb382847f1128dbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 25/47] fix: strdup_n: terminate the copy instead of reading
 one byte too many

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From 9211ccdbcfb1b91b120b9f82cc93d161d7c9005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 26/47] fix: normalizepath: reject paths that do not fit its
 buffer

---
 src/filelib/normalizepath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..85d9b89 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -14,7 +14,7 @@ int normalizepath(stringptr* path) {
 	char* tmp;
 	out.ptr = buf;
 	out.size = 0;
-	if(!path->size || path->ptr[0] != '/') goto fail;
+	if(!path->size || path->size >= sizeof(buf) || path->ptr[0] != '/') goto fail;
 	for(i = 0; i < path->size; i++) {
 		switch(path->ptr[i]) {
 			case '/':
-- 
2.43.0


From c1750f054804650844897b9647d83a2b65b1f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 27/47] fix: getpathdiff: path1 must be a parent directory of
 path2

paths of equal length were not compared, and /foo passed for a parent of /foobar.
---
 src/filelib/getpathdiff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..53b63cd 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -18,8 +18,9 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 	}
 	ssize_t result = path2->size - path1->size;
 	if(result < 0) return -1;
+	if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
 	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+		if(path2->ptr[path1->size] != '/') return -1;
 		memcpy(workbuf, path2->ptr + path1->size, result);
 	}
 	workbuf[result] = 0;
-- 
2.43.0


From c1f9e713b2acfcfc110bb54282bf94197a0dab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 28/47] fix: getFileExt: a name without a dot has no extension

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..9333f97 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -3,6 +3,6 @@
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
 	while(p - 1 > filename && p[-1] != '.') p--;
-	if(p > filename) return p;
+	if(p > filename && p[-1] == '.') return p;
 	else return NULL;
 }
-- 
2.43.0


From dd0fc7dbf739f21b2932647437c8265f7206c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 29/47] fix: read_stdin_line: only remove a newline, not the
 last character

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From d5a626cf1b9142ee464580a56b36cdc490eb07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 30/47] fix: fileparser_getnextlinelength: restore the position
 on failure, too

and do not fail on a last line whose length is a multiple of the buffer size.
---
 src/fileparser/fileparser_getnextlinelength.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..41e5e69 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,12 +7,12 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
+	else if(ret == -2 && res) ret = 0; // the line filled the buffer up to EOF
 	parser->fpos = store_fpos;
-	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1 || ret) return -1;
 	return res;
 }
 
-- 
2.43.0


From b40ee71b5ae4c4647d57bdb904bed675731bbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 31/47] fix: stringptrlist_fromfile: report read errors and
 overlong lines

---
 src/stringptrlist/stringptrlist_fromfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..b4fe5a7 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,12 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int ret, success = 0;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line) && line.size) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	success = ret == 0 || ret == -2; // anything else but EOF is an error
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From 774e69652f03c5afde1e562d11d85d438fabba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 32/47] fix: filelist_search: free the whole list on failure,
 and only once

the items leaked, and l->files was left dangling. also notice a failure to add
the dot entries.
---
 src/filelist/filelist.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..8beb7d9 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,14 +55,16 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		if(l->files) stringptrlist_free(l->files);
+		l->files = NULL;
 		globfree(&l->pglob);
 		return -1;
 	}
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
@@ -103,10 +105,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err;
 	}
 	return 0;
 }
-- 
2.43.0


From 8f7f6e150d56f355254f2ff952650e428e2ab378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 33/47] fix: process_close: wait again if interrupted by a
 signal

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..a4bb871 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -50,7 +50,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From ab826a5b30b63cbf56988e922b9c69016cc5e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 34/47] fix: ssa_free: ignore pointers in front of the pool,
 too

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..e3d9c0d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From af31e24dd204b2461432dff3ed320bdeb04946b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 35/47] fix: ssalloc: repair the power of 2 test, and reuse in
 pools below 8 elements

---
 include/ssalloc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index e3d9c0d..35d8104 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -35,7 +35,7 @@ typedef struct {
 
 #define TYPEBITS(X) (sizeof(X) * CHAR_BIT)
 
-#if (SSA_MAXELEM & (-SSA_MAXELEM) != SSA_MAXELEM)
+#if ((SSA_MAXELEM & (-SSA_MAXELEM)) != SSA_MAXELEM)
 #  error SSA_MAXELEM must be a power of 2
 #elif (SSA_MAXLEN > 1024)
 #  define SSA_COMPARETYPE uint64_t
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b < (SSA_MAXELEM + TYPEBITS(SSA_COMPARETYPE) - 1) / TYPEBITS(SSA_COMPARETYPE); b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 7636a1fb4e58b85f83149b98352ea5032481fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 36/47] fix: guard_alloc: do not leak a page if n is a multiple
 of the page size

---
 include/guard_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..95c2845 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -13,7 +13,7 @@
 static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
-	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 70d911c896b166cb7c73aa0aeadcf04e6a5cf819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 37/47] fix: bmap_insert: return -1 if the value cannot be
 inserted

the comma bound to the whole conditional, and the index of the removed key was
returned.
---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..e066a6d 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From 555ffac8a29d4e5f1b698d48292da82b7d08532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:01 +0000
Subject: [PATCH 38/47] fix: tglist: compute the negative move distance as
 signed number

itemsz*pos2diff with pos2diff -1 is a size_t near SIZE_MAX, adding it to the
pointer overflows (undefined; reported by -fsanitize=pointer-overflow on every
tglist_insert).
---
 include/tglist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tglist.h b/include/tglist.h
index ae777ad..d319706 100644
--- a/include/tglist.h
+++ b/include/tglist.h
@@ -172,7 +172,7 @@ static int tglist_grow_if_needed(void* lst, size_t itemsize) {
 static int tglist_memmove_impl(void *lst, size_t pos1, int pos2diff, size_t itemsz) {
 	tglist_proto *l = lst;
 	char* dst = tglist_ptr_from_index_impl(l, pos1, itemsz);
-	const char* src = dst + (itemsz*pos2diff);
+	const char* src = dst + ((ptrdiff_t) itemsz * pos2diff);
 	return !!memmove(dst, src, (tglist_getsize(l) - (pos1 + pos2diff))*itemsz);
 }
 
-- 
2.43.0


From 5038c721fdf063a39ecc6f4675bdc795d184f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:58 +0000
Subject: [PATCH 39/47] fix: findword: a match where the search was resumed is
 not at a word boundary

---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..c68d207 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char* res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From e233ab311ffacfacd907a6ee74ac1e647d592793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:09 +0000
Subject: [PATCH 40/47] fix: process_open: do not destroy file actions that
 were never initialized

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index a4bb871..52c536b 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -9,7 +9,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {0}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1; // nothing to destroy yet
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From e3a27fd38371ca32a2cd88d96c5b9c94b1b60a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:49 +0000
Subject: [PATCH 41/47] fix: filelist_search: do not use a compound literal
 behind the end of its block

---
 src/filelist/filelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 8beb7d9..4b9569e 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -36,10 +36,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	int ret;
 	size_t i;
 	stringptr temp, *s = &temp;
+	stringptr curdir = { .ptr = "./", .size = 2 };
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = &curdir;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From 99518481986462919bf117cb184ed323f6701c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 42/47] fix: stringlist.h uses free() without declaring it

---
 include/stringlist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stringlist.h b/include/stringlist.h
index 3c1fff3..b7e8487 100644
--- a/include/stringlist.h
+++ b/include/stringlist.h
@@ -4,6 +4,7 @@
 #include "sblist.h"
 #define _GNU_SOURCE
 #include <string.h>
+#include <stdlib.h>
 
 #define stringlist sblist
 #define stringlist_new(N) sblist_new(sizeof(char*), N)
-- 
2.43.0


From 0053cad03e422d8489ddef69d6bf4786fa37d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 43/47] fix: BASE64*_BYTES understate the size when given an
 expression like c ? a : b

---
 include/strlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strlib.h b/include/strlib.h
index 8e2f6ca..db15416 100644
--- a/include/strlib.h
+++ b/include/strlib.h
@@ -80,13 +80,13 @@ extern const size_t conv_cypher_len;
 extern const char base64_tbl[64];
 
 /* calculates number of bytes base64-encoded stream of N bytes will take. */
-#define BASE64ENC_BYTES(N) (((N+2)/3)*4)
+#define BASE64ENC_BYTES(N) ((((N)+2)/3)*4)
 /* calculates the required output buffer size to base64-encode
  * N bytes (equals BASE64ENC_BYTES + 1 byte for the zero terminator) */
 #define BASE64ENC_BUFSIZE(N) (1+BASE64ENC_BYTES(N))
 /* calculates number of bytes base64-decoding of a string of N bytes will
    take. */
-#define BASE64DEC_BYTES(N) ((N/4)*3)
+#define BASE64DEC_BYTES(N) (((N)/4)*3)
 /* bytes required for base64 decoded output from an input string of length N */
 #define BASE64DEC_BUFSIZE(N) (1+BASE64DEC_BYTES(N))
 
-- 
2.43.0


From c6aaad67e73933d5999f0199bd5e0b4dbcb158ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 44/47] fix: BYTEM/BYTEL misplace bits given as expressions

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0


From 23a683c79aa4b28214af64db9dcd178760a17025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 45/47] fix: stringlist_add_dup uses strdup undeclared in
 strict C99 units

---
 include/stringlist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stringlist.h b/include/stringlist.h
index b7e8487..5177d2a 100644
--- a/include/stringlist.h
+++ b/include/stringlist.h
@@ -23,8 +23,10 @@ static inline char* stringlist_get(stringlist *sl, size_t idx) {
 // returns 1 on success, 0 on OOM
 #define stringlist_add(SL, S) sblist_add(SL, &(S))
 static inline int stringlist_add_dup(stringlist *sl, char* s) {
-	char *x = strdup(s);
+	size_t l = strlen(s) + 1;
+	char *x = malloc(l);
 	if(x) {
+		memcpy(x, s, l);
 		if(!sblist_add(sl, &x)) { free(x); return 0; }
 		return 1;
 	}
-- 
2.43.0


From ac1cd2bad17f6aaf20da5a0eb3e8d0a5879258bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 46/47] fix: crc32_impl.c compiled on its own defines crc32.c's
 functions a second time

---
 src/crc32/crc32.c      | 1 +
 src/crc32/crc32_impl.c | 6 ++++++
 src/crc32/crc32c.c     | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/crc32/crc32.c b/src/crc32/crc32.c
index 9ebcaf1..4ddcbeb 100644
--- a/src/crc32/crc32.c
+++ b/src/crc32/crc32.c
@@ -1,3 +1,4 @@
 #undef CRC32_CASTAGNOLI
+#define CRC32_BUILD
 #include "crc32_impl.c"
 
diff --git a/src/crc32/crc32_impl.c b/src/crc32/crc32_impl.c
index 8537d67..9b26703 100644
--- a/src/crc32/crc32_impl.c
+++ b/src/crc32/crc32_impl.c
@@ -29,6 +29,10 @@ SUCH DAMAGE.
 
 */
 
+/* included by crc32.c and crc32c.c. compiled on its own, it must not define
+   the functions of crc32.c a second time. */
+#ifdef CRC32_BUILD
+
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -158,3 +162,5 @@ void CRC_PREFIX(Final)(uint8_t cbuf[4], CRC32C_CTX * ctx) {
 	cbuf[2] = (ctx->state >> 16) & 0xff;
 	cbuf[3] = (ctx->state >> 24) & 0xff;
 }
+
+#endif
diff --git a/src/crc32/crc32c.c b/src/crc32/crc32c.c
index d1257cb..d9e79c6 100644
--- a/src/crc32/crc32c.c
+++ b/src/crc32/crc32c.c
@@ -1,5 +1,6 @@
 #ifndef CRC32_CASTAGNOLI
 #define CRC32_CASTAGNOLI
 #endif
+#define CRC32_BUILD
 #include "crc32_impl.c"
 
-- 
2.43.0


From f0cca2c744e2d615e49d46e4f434ed76c1c23f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 47/47] fix: stdio-repl.h's puts does not write the newline

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0

