From 764ea56733daaabb74e4a22d967a473e877d6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 01/41] fix: bounds, ownership, override and compound type
 handling in the tag base

---
 src/server/tagbase.c    | 355 +++++++++++++++++++++++++++-------------
 src/server/tagbase.h    |   1 +
 src/server/virtualtag.c |  18 +-
 3 files changed, 255 insertions(+), 119 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..29b8ab2 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -20,6 +20,7 @@
 
 #include <ctype.h>
 #include <assert.h>
+#include <limits.h>
 #include <common.h>
 #include "tagbase.h"
 #include "retain.h"
@@ -178,12 +179,14 @@ _get_by_name(char *name)
  * the type is not valid, bad things will happen */
 static inline void
 _cdt_inc_refcount(tag_type type) {
+    type &= ~DAX_QUEUE;
     _datatypes[CDT_TO_INDEX(type)].refcount++;
 }
 
 /* This funtion decrements the reference counter */
 static inline void
 _cdt_dec_refcount(tag_type type) {
+    type &= ~DAX_QUEUE;
     if(_datatypes[CDT_TO_INDEX(type)].refcount != 0) {
         _datatypes[CDT_TO_INDEX(type)].refcount--;
     }
@@ -198,23 +201,16 @@ _database_grow(void)
     _dax_tag_db *new_db;
 
     new_index = xrealloc(_index, (_dbsize *2) * sizeof(_dax_tag_index));
+    if(new_index == NULL) return ERR_ALLOC;
+    _index = new_index;
     new_db = xrealloc(_db, (_dbsize *2) * sizeof(_dax_tag_db));
-
-    if(new_index != NULL && new_db != NULL) {
-        _index = new_index;
-        _db = new_db;
-        _dbsize *= 2;
-        return 0;
-    } else {
-        /* This is to shrink the one that didn't get allocated
-         so that they won't be lop sided */
-        if(new_index)
-            _index = xrealloc(_index, _dbsize * sizeof(_dax_tag_index));
-        if(new_db)
-            _db = xrealloc(_db, _dbsize * sizeof(_dax_tag_db));
-
-        return ERR_ALLOC;
-    }
+    if(new_db == NULL) return ERR_ALLOC;
+    _db = new_db;
+    /* realloc() doesn't clear the new memory */
+    bzero(&_db[_dbsize], _dbsize * sizeof(_dax_tag_db));
+    _dbsize *= 2;
+    set_dbsize(_dbsize);
+    return 0;
 }
 
 
@@ -250,7 +246,7 @@ _add_index(char *name, tag_index index)
             }
         }
         n = min;
-        memmove(&_index[n + 1], &_index[n], (_dbsize - n - 1) * sizeof(_dax_tag_index));
+        memmove(&_index[n + 1], &_index[n], (_indexcount - n) * sizeof(_dax_tag_index));
     }
     /* Assign pointer to database node in the index */
     _index[n].tag_idx = index;
@@ -281,7 +277,7 @@ _del_index(char *name) {
             break;
         }
     }
-    memmove(&_index[n], &_index[n+1], (_dbsize - n - 1) * sizeof(_dax_tag_index));
+    memmove(&_index[n], &_index[n+1], (_indexcount - n - 1) * sizeof(_dax_tag_index));
     _indexcount--;
     return 0;
 }
@@ -315,8 +311,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -325,6 +321,42 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     return 0;
 }
 
+/* Frees the data area of the tag, and whatever is in the queue if it is a queue */
+static void
+_free_data(tag_index idx) {
+    tag_queue *q;
+
+    if(IS_QUEUE(_db[idx].type) && _db[idx].data != NULL) {
+        q = (tag_queue *)((virt_functions *)_db[idx].data)->userdata;
+        for(int n=0; n<q->qsize; n++) {
+            free(q->queue[n]);
+        }
+        free(q->queue);
+        free(q);
+    }
+    xfree(_db[idx].data);
+    _db[idx].data = NULL;
+}
+
+/* Frees the override memory of the tag and adjusts the counters */
+static void
+_override_free(tag_index idx) {
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+    }
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _ovrdinstalled--;
+        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+    }
+    /* Remove both of the flags that indicate we have an override installed or set */
+    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
+    xfree(_db[idx].odata);
+    _db[idx].odata = NULL;
+    xfree(_db[idx].omask);
+    _db[idx].omask = NULL;
+}
+
 /* This function adds a virtual tag to the system.  When this tag is read, the data will
  * come from the function given by rf. And when written the data will be passed to wf.  If
  * rf == NULL then the tag will be write only and reads will return an error and likewise if
@@ -337,6 +369,7 @@ virtual_tag_add(char *name, tag_type type, unsigned int count, vfunction *rf, vf
     virt_functions vf;
 
     idx = tag_add(-1, name, type, count, 0);
+    if(idx < 0) return idx;
     /* We just allocated this data but that was just for convenience */
     free(_db[idx].data);
     vf.rf = rf;
@@ -428,13 +461,54 @@ initialize_tagbase(void)
     set_dbsize(_dbsize);
 }
 
+/* Writes the description of the tag to one of the system tags */
+static void
+_write_tag_desc(tag_index dest, tag_index idx, uint16_t attr) {
+    uint8_t tag_desc[47];
+
+    memset(tag_desc, 0, sizeof(tag_desc));
+    *((tag_index *)tag_desc) = idx;
+    *((tag_type *)&tag_desc[4]) = _db[idx].type;
+    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
+    *((uint16_t *)&tag_desc[12]) = attr;
+    strcpy((char *)&tag_desc[14], _db[idx].name);
+    tag_write(-1, dest, 0, tag_desc, 47);
+}
+
+/* Increase the size of the data areas of the tag.  Returns zero on success */
+static int
+_tag_grow(tag_index idx, uint32_t count, int newsize) {
+    uint8_t *newdata;
+    int oldsize = tag_get_size(idx);
+
+    /* The data of these isn't really the data of the tag */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    if(newsize > oldsize) {
+        if(_db[idx].odata != NULL) {
+            if((newdata = xrealloc(_db[idx].odata, newsize)) == NULL) return ERR_ALLOC;
+            _db[idx].odata = newdata;
+            bzero(&newdata[oldsize], newsize - oldsize);
+            if((newdata = xrealloc(_db[idx].omask, newsize)) == NULL) return ERR_ALLOC;
+            _db[idx].omask = newdata;
+            bzero(&newdata[oldsize], newsize - oldsize);
+        }
+        if((newdata = xrealloc(_db[idx].data, newsize)) == NULL) return ERR_ALLOC;
+        _db[idx].data = newdata;
+        bzero(&newdata[oldsize], newsize - oldsize);
+    }
+    _db[idx].count = count;
+    if(_db[idx].attr & TAG_ATTR_RETAIN) ret_tag_write(idx);
+    return 0;
+}
+
 static void
 _set_attribute(tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
-        /* TODO: add tag retention */;
-        ret_add_tag(idx);
-        _db[idx].attr |= TAG_ATTR_RETAIN;
+        /* If it's already retained then there is nothing to do */
+        if(!(_db[idx].attr & TAG_ATTR_RETAIN) && ret_add_tag(idx) == 0) {
+            _db[idx].attr |= TAG_ATTR_RETAIN;
+        }
     } else {
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
             _db[idx].attr |= (TAG_ATTR_OWNED | TAG_ATTR_READONLY);
@@ -452,10 +526,8 @@ tag_index
 tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
-    void *newdata;
-    unsigned int size;
+    uint64_t size;
     int result;
-    uint8_t tag_desc[47];
 
     if(count == 0) {
         dax_log(DAX_LOG_ERROR, "tag_add() called with count = 0");
@@ -484,7 +556,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(type == DAX_BOOL) {
         size = count / 8 + 1;
     } else {
-        size = type_size(type) * count;
+        size = (uint64_t)type_size(type) * count;
+    }
+    /* The rest of the program uses signed integers for the size */
+    if(size > INT_MAX) {
+        dax_log(DAX_LOG_MSGERR, "Tag %s is too big", name);
+        return ERR_2BIG;
     }
 
     /* Check for an existing tagname in the database */
@@ -492,6 +569,8 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         if((_db[n].attr & TAG_ATTR_OWNED) && _db[n].fd != fd) {
             return ERR_TAG_DUPL;
         }
+        /* Whoever asks for it becomes the owner */
+        if(_db[n].type == type && attr & TAG_ATTR_OWNED) _db[n].fd = fd;
         /* If the tag is identical or bigger then just return the handle */
         if(_db[n].type == type && _db[n].count >= count) {
             _set_attribute(n, attr);
@@ -499,17 +578,15 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         } else if(_db[n].type == type && _db[n].count < count) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
-            newdata = xrealloc(_db[n].data, size);
-            if(newdata) {
-                _db[n].data = newdata;
-                _db[n].count = count;
+            result = _tag_grow(n, count, size);
+            if(result == 0) {
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-                tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
+                _write_tag_desc(INDEX_ADDED_TAG, n, attr);
                 return n;
             } else {
-                dax_log(DAX_LOG_ERROR, "Unable to allocate memory to grow the size of tag %s", name);
-                return ERR_ALLOC;
+                dax_log(DAX_LOG_ERROR, "Unable to grow the size of tag %s", name);
+                return result;
             }
         } else {
             dax_log(DAX_LOG_MSGERR, "Duplicate tag name %s", name);
@@ -520,13 +597,15 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     }
 
     /* Assign everything to the new tag, copy the string and git */
+    bzero(&_db[n], sizeof(_dax_tag_db));
     _db[n].count = count;
     _db[n].type = type;
 
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
     if(IS_QUEUE(type)) {
-        _queue_add(n, type, count);
+        result = _queue_add(n, type, count);
+        if(result) return result;
     } else {
         /* Allocate the data area */
         if((_db[n].data = xmalloc(size)) == NULL){
@@ -545,7 +624,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 
     if(_add_index(name, n)) {
         /* free up our previous allocation if we can't put this in the __index */
-        free(_db[n].data);
+        _free_data(n);
         dax_log(DAX_LOG_ERROR, "Unable to allocate data for the tag database index");
         return ERR_ALLOC;
     }
@@ -564,13 +643,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = n;
-    *((tag_type *)&tag_desc[4]) = type;
-    *((dax_udint *)&tag_desc[8]) = count;
-    *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_ADDED_TAG, n, attr);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
 
@@ -602,8 +675,6 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 int
 tag_del(tag_index idx)
 {
-    uint8_t tag_desc[47];
-
     if(idx >= _tagnextindex || idx < 0) {
         dax_log(DAX_LOG_ERROR, "tag_del() pass index out of range %d", idx);
         return ERR_ARG;
@@ -627,18 +698,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = idx;
-    *((tag_type *)&tag_desc[4]) = _db[idx].type;
-    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
-    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_DELETED_TAG, idx, _db[idx].attr);
 
+    _override_free(idx);
     xfree(_db[idx].name);
-    xfree(_db[idx].data);
+    _free_data(idx);
     _db[idx].name = NULL;
-    _db[idx].data = NULL;
     _db[idx].attr = 0;
     _tagcount--;
     if(_db[INDEX_TAGCOUNT].data != NULL) {
@@ -703,26 +768,70 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
+/* Returns zero if the given bytes are within the data area of the tag */
+static int
+_check_range(tag_index idx, int offset, int size) {
+    if(_db[idx].data == NULL) {
+        return ERR_DELETED;
+    }
+    if(offset < 0 || size < 0 || (int64_t)offset + size > tag_get_size(idx)) {
+        return ERR_2BIG;
+    }
+    return 0;
+}
+
+/* Determine whether the module can write to the tag without actually writing
+ * to it.  Returns zero if it can */
+int
+tag_check_write(int fd, tag_index idx, int offset, int size) {
+    int result;
+    virt_functions *vf;
+
+    if(idx < 0 || idx >= _tagnextindex) {
+        return ERR_ARG;
+    }
+    if(is_tag_readonly(idx) && !is_tag_owned(fd, idx)) {
+        return ERR_READONLY;
+    }
+    if(is_tag_queue(idx)) {
+        if(offset != 0 || size != tag_get_size(idx)) return ERR_ILLEGAL;
+        return 0;
+    }
+    if(is_tag_virtual(idx)) {
+        vf = (virt_functions *)_db[idx].data;
+        if(vf->wf == NULL) return ERR_READONLY;
+        return 0;
+    }
+    result = _check_range(idx, offset, size);
+    if(result == 0 && _db[idx].attr & TAG_ATTR_SPECIAL) {
+        result = special_tag_write(fd, idx, offset, NULL, size);
+    }
+    return result;
+}
 
 /* These are the low level tag reading / writing interface to the
  * database.
@@ -753,12 +862,8 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
-        if(_db[idx].data == NULL) {
-            return ERR_DELETED;
-        }
+        result = _check_range(idx, offset, size);
+        if(result) return result;
         /* Copy the data into the right place. */
         memcpy(data, &(_db[idx].data[offset]), size);
         /* If the tag is special then call the hook */
@@ -799,18 +904,15 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
-        if(_db[idx].data == NULL) {
-            return ERR_DELETED;
-        }
+        result = _check_range(idx, offset, size);
+        if(result) return result;
         if(_db[idx].attr & TAG_ATTR_SPECIAL) {
             result = special_tag_write(fd, idx, offset, data, size);
             if(result) return result;
         }
         /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        /* A map may use this to copy within the same tag */
+        memmove(&(_db[idx].data[offset]), data, size);
         event_check(idx, offset, size);
     }
 
@@ -828,20 +930,16 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
-        return ERR_2BIG;
-    }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
-    }
+    result = _check_range(idx, offset, size);
+    if(result) return result;
     if(_db[idx].attr & TAG_ATTR_SPECIAL) {
         result = special_tag_mask_write(fd, idx, offset, data, mask, size);
         if(result) return result;
@@ -885,7 +983,8 @@ _cdt_destroy(datatype *cdt) {
 static int
 cdt_append(datatype *cdt, char *str)
 {
-    int retval, count;
+    int retval;
+    long count;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -898,6 +997,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, NULL, 0);
+    if(count <= 0 || count > INT_MAX) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -952,6 +1052,25 @@ cdt_append(datatype *cdt, char *str)
 }
 
 
+/* Makes sure that the datatype has some members and that they are not too
+ * big for us to deal with */
+static int
+_check_members(cdt_member *this) {
+    uint64_t bits = 0;
+
+    if(this == NULL) return ERR_ARG;
+    while(this != NULL) {
+        if(this->type == DAX_BOOL) {
+            bits += this->count;
+        } else {
+            bits += 7 + (uint64_t)type_size(this->type) * 8 * this->count;
+        }
+        if(bits > INT_MAX) return ERR_2BIG;
+        this = this->next;
+    }
+    return 0;
+}
+
 /* Creates a compound datatype using the definition string in *str.
  * Returns the positive index of the newly created datatype if
  * sucessful or 0 on failure. If *error is not NULL any error codes
@@ -977,19 +1096,27 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
+    result = name == NULL ? ERR_ARG : _validate_name(name);
+    if(result) {
         if(error != NULL) *error = result;
         free(tmp);
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        free(tmp);
+        /* The base datatypes can't be redefined */
+        result = IS_CUSTOM(type) ? serialize_datatype(type, &serial) : ERR_DUPL;
+        if(result < 0) {
+            if(error != NULL) *error = result;
+            return 0;
+        }
+        result = strcmp(serial, str);
+        free(serial);
+        if(result) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
             return 0;
         } else { /* If it's the same then just return it */
-            free(tmp);
+            if(error != NULL) *error = 0;
             return type;
         }
     }
@@ -997,6 +1124,7 @@ cdt_create(char *str, int *error) {
     cdt.name = strdup(name);
     if(cdt.name == NULL) {
         if(error != NULL) *error = ERR_ALLOC;
+        free(tmp);
         return 0;
     }
     cdt.members = NULL;
@@ -1011,6 +1139,12 @@ cdt_create(char *str, int *error) {
         }
     }
     free(tmp);
+    result = _check_members(cdt.members);
+    if(result) {
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = result;
+        return 0;
+    }
 
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
@@ -1021,6 +1155,7 @@ cdt_create(char *str, int *error) {
             _datatypes = new_datatype;
             _datatype_size += DAX_DATATYPE_SIZE;
         } else {
+            _cdt_destroy(&cdt);
             if(error) *error = ERR_ALLOC;
             return 0;
         }
@@ -1147,7 +1282,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
@@ -1217,15 +1352,16 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
+    int tag_size, result;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
-    }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    result = _check_range(idx, offset, size);
+    if(result) return result;
+    /* There is no data that could be overridden in a virtual tag */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1237,10 +1373,9 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
     memcpy(&_db[idx].odata[offset], data, size);
     memcpy(&_db[idx].omask[offset], mask, size);
 
@@ -1260,15 +1395,13 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 int
 override_del(tag_index idx, int offset, void *mask, int size) {
     int tag_size;
-    int n;
+    int n, result;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
-    }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    result = _check_range(idx, offset, size);
+    if(result) return result;
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
@@ -1276,22 +1409,13 @@ override_del(tag_index idx, int offset, void *mask, int size) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-    /* Remove both of the flags that indicate we have an override installed or set */
-    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
      * tag so we'll free the memory */
-    _ovrdinstalled--;
-    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
-        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
-    }
-    xfree(_db[idx].odata);
-    _db[idx].odata = NULL;
-    xfree(_db[idx].omask);
-    _db[idx].omask = NULL;
+    _override_free(idx);
 
     return 0;
 }
@@ -1299,18 +1423,20 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
+    int result;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
+    result = _check_range(idx, offset, size);
+    if(result) return result;
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    memcpy(data, &_db[idx].data[offset], size);
+    if(_db[idx].omask == NULL) { /* Nothing is overridden */
+        bzero(mask, size);
+    } else {
+        memcpy(mask, &_db[idx].omask[offset], size);
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
     return 0;
 }
 
@@ -1359,7 +1485,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
@@ -1411,6 +1537,7 @@ type_size(tag_type type)
     if( (result = _checktype(type)) ) {
         return result;
     }
+    type &= ~DAX_QUEUE; /* The size doesn't depend on whether it is a queue */
 
     if(IS_CUSTOM(type)) {
         this = _datatypes[CDT_TO_INDEX(type)].members;
diff --git a/src/server/tagbase.h b/src/server/tagbase.h
index 01712ec..7570c8d 100644
--- a/src/server/tagbase.h
+++ b/src/server/tagbase.h
@@ -136,6 +136,7 @@ int is_tag_virtual(tag_index idx);
 int is_tag_queue(tag_index idx);
 int is_tag_owned(int fd, tag_index idx);
 int tag_get_size(tag_index idx);
+int tag_check_write(int fd, tag_index idx, int offset, int size);
 
 /* Database reading and writing functions */
 int tag_read(int fd, tag_index handle, int offset, void *data, int size);
diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..0237ef2 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,8 +53,9 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || (uint64_t)offset + size > sizeof(dax_time)) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
+    if(offset < 0 || size < 0 || (uint64_t)offset + size > sizeof(name)) return ERR_2BIG;
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, sizeof(name));
+    strncpy(name, tag.name, DAX_TAGNAME_SIZE);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
@@ -80,7 +84,7 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
     tag_queue *q;
 
     int next, newqsize;
-    uint8_t *new_queue;
+    void **new_queue;
 
     /* We only allow writing the entire tag.  Doing otherwise
      * would be ambiguous */
@@ -91,11 +95,14 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         newqsize = q->qsize* 2;
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
-        q->queue = (void **)new_queue;
+        q->queue = new_queue;
+        /* The new area doesn't have any memory allocated to it yet */
+        bzero(&q->queue[q->qsize], (newqsize - q->qsize) * sizeof(void *));
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            bzero(&q->queue[0], q->qread*sizeof(void *));
         }
         q->qsize = newqsize;
     }
@@ -117,6 +124,7 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From 48e8f0645301fd9524fb7491caeaa0690ff24488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 02/41] fix: retained tags keep their data over restarts and
 failed reads

---
 src/server/retain.c | 111 +++++++++++++++++++++++++++++++-------------
 1 file changed, 79 insertions(+), 32 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..3a10b99 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -52,8 +52,7 @@ _create_types(void) {
     while((result = sqlite3_step(stmt)) == SQLITE_ROW) {
         name = (char *)sqlite3_column_text(stmt, 0);
         definition = (char *)sqlite3_column_text(stmt, 1);
-        result = cdt_create(definition, &error);
-        if(result == 0) {
+        if(cdt_create(definition, &error) == 0) {
             dax_log(DAX_LOG_ERROR, "Problem creating datatype %s - %d", name, error);
         }
     }
@@ -98,7 +97,11 @@ _create_tags(void) {
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            if(data != NULL) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
+            /* The row gets written again once the tables have been rebuilt */
+            _db[tag_index].attr |= TAG_ATTR_RETAIN;
         }
     }
     if(result != SQLITE_DONE) {
@@ -133,10 +136,32 @@ _create_database_tables(void) {
     return 0;
 }
 
+/* Rebuild the tables so that they contain what we just loaded.  This has to happen
+ * in one transaction or we'd lose the tags if we get stopped in the middle of it */
+static int
+_rebuild_database(void) {
+    int result, n;
+
+    result = sqlite3_exec(_sql, "BEGIN IMMEDIATE;", NULL, 0, NULL);
+    if(result != SQLITE_OK) return result;
+    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, NULL);
+    if(result == SQLITE_OK) {
+        result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS types;", NULL, 0, NULL);
+    }
+    if(result == SQLITE_OK) result = _create_database_tables();
+    for(n = 0; n < get_tagindex() && result == SQLITE_OK; n++) {
+        if(_db[n].attr & TAG_ATTR_RETAIN) result = ret_add_tag(n);
+    }
+    if(result == SQLITE_OK) result = sqlite3_exec(_sql, "COMMIT;", NULL, 0, NULL);
+    if(result != SQLITE_OK && !sqlite3_get_autocommit(_sql)) {
+        sqlite3_exec(_sql, "ROLLBACK;", NULL, 0, NULL);
+    }
+    return result;
+}
+
 static int
 _init(char *filename) {
     int result;
-    char *errmsg;
 
     dax_log(DAX_LOG_DEBUG, "Setting up SQLite Tag Retention - %s", filename);
     result = sqlite3_open(filename, &_sql);
@@ -146,22 +171,21 @@ _init(char *filename) {
         _sql=NULL;
         return result;
     }
-    /* First we attempt to create data types and tags if they exist in the retention database
-       These may fail if the file doesn't exist but that's okay */
-    result = _create_types(); /* Creates the types that are stored in the data base */
-    result = _create_tags(); /* Creates the tags that are in the data base */
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'tags' - %s", errmsg);
+    /* If it's a new file then there will be nothing to read in the tables */
+    result = _create_database_tables();
+    /* Create the data types and tags that exist in the retention database */
+    if(result == SQLITE_OK) result = _create_types();
+    if(result == SQLITE_OK) result = _create_tags();
+    if(result == SQLITE_OK) result = _rebuild_database();
+    if(result == SQLITE_OK) {
+        result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1, count = ?3 WHERE id = ?2;", -1, &update_stmt, NULL);
     }
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS types;", NULL, 0, &errmsg);
     if(result != SQLITE_OK) {
-        DF("unable to drop table 'types' - %s", errmsg);
-    }
-    result = _create_database_tables();
-    result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1 WHERE id = ?2;", -1, &update_stmt, NULL);
-    if(result) {
-        DF("problem with prepare %d", result);
+        /* Leave what is in the file alone if we can't use it */
+        dax_log(DAX_LOG_ERROR, "Unable to set up tag retention - %d", result);
+        sqlite3_close(_sql);
+        _sql=NULL;
+        return result;
     }
     return 0;
 }
@@ -189,34 +213,39 @@ _add_type(tag_type type) {
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_ARG;
     }
     /* Loop through all the members and recursively add any
        compound data types that we find */
     next = dt->members;
     while(next != NULL) {
         if(IS_CUSTOM(next->type)) {
-            _add_type(next->type);
+            result = _add_type(next->type);
+            if(result) return result;
         }
         next = next->next;
     }
     /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
-    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = serialize_datatype(type, &type_str);
+    if(result < 0) return result;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
+    /* More than one tag may use the same data type */
+    snprintf(query, 256, "INSERT OR IGNORE INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
     if(result != SQLITE_OK) {
-        dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        dax_log(DAX_LOG_ERROR, "Unable to create type in retention ");
+        free(type_str);
         return result;
     }
     sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    free(type_str);
     if(result != SQLITE_DONE) {
-        dax_log(DAX_LOG_ERROR, "Problem inserting tag");
+        dax_log(DAX_LOG_ERROR, "Problem inserting type");
         return -1;
     }
-    sqlite3_finalize(stmt);
 
     return 0;
 }
@@ -229,12 +258,13 @@ ret_add_tag(int index) {
     char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Adding Retained Tag at index %d", index);
-    /* TODO: Implement retaining custom data type tags */
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    if(_db[index].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     if(IS_CUSTOM(_db[index].type)) {
-        _add_type(_db[index].type);
+        result = _add_type(_db[index].type);
+        if(result) return result;
     }
-    if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
+    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%u,?);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
@@ -242,7 +272,9 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    sqlite3_bind_blob(stmt, 1, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
         id = sqlite3_last_insert_rowid(_sql);
@@ -251,14 +283,20 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
     return 0;
 }
 
 int
 ret_del_tag(int index) {
+    char query[64];
 
     dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    snprintf(query, 64, "DELETE FROM main.tags WHERE id = %u;", _db[index].ret_file_pointer);
+    if(sqlite3_exec(_sql, query, NULL, 0, NULL) != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Problem deleting tag from retention - %s", sqlite3_errmsg(_sql));
+        return -1;
+    }
 
     return 0;
 }
@@ -267,7 +305,8 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
@@ -275,8 +314,16 @@ ret_tag_write(int index) {
     if(result) {
         DF("Problem with bind_int %d", result);
     }
-    result = sqlite3_step(update_stmt);
+    result = sqlite3_bind_int64(update_stmt, 3, _db[index].count);
+    if(result) {
+        DF("Problem with bind_int64 %d", result);
+    }
+    sqlite3_step(update_stmt);
     result = sqlite3_reset(update_stmt);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Problem storing the data of retained tag - %s", sqlite3_errmsg(_sql));
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 639e84376e41279148d3ed1d7fa0014ceb90ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 03/41] fix: atomic operations are bit exact and bounds checked

---
 src/server/atomic.c | 160 ++++++++++++++++++--------------------------
 1 file changed, 64 insertions(+), 96 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..33d863b 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -37,6 +37,17 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
     dest[0] = (src[0] << bit);           /* Fix the LSB */
 }
 
+/* Returns a mask of the bits in the n'th byte of the data that are
+ * part of the BOOL range given by the handle */
+inline static dax_byte
+_bool_mask(tag_handle h, int n) {
+    dax_byte mask = 0xFF;
+
+    if(n == 0) mask &= 0xFF << h.bit;
+    if(n == h.size-1 && (h.bit + h.count) % 8) mask &= ~(0xFF << ((h.bit + h.count) % 8));
+    return mask;
+}
+
 
 static int
 _atomic_inc(tag_handle h, void *data) {
@@ -59,7 +70,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -67,6 +77,7 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
@@ -103,7 +114,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -111,6 +121,7 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
@@ -159,25 +170,20 @@ static int
 _atomic_or(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
+        db = (dax_byte *)&_db[h.index].data[h.byte];
         _left_shift(temp, data, h.size, h.bit);
-
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
         for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((db[n] | temp[n]) & mask);
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -188,24 +194,20 @@ static int
 _atomic_and(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
+        db = (dax_byte *)&_db[h.index].data[h.byte];
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] |= hmask;
-        temp[0]      |= lmask;
-
         for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((db[n] & temp[n]) & mask);
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -216,38 +218,20 @@ static int
 _atomic_nor(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
+        db = (dax_byte *)&_db[h.index].data[h.byte];
+        _left_shift(temp, data, h.size, h.bit);
+        for(n=0; n<h.size; n++) {
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((~(db[n] | temp[n])) & mask);
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
-
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -258,31 +242,20 @@ static int
 _atomic_nand(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] |= hmask;
-        temp[0]      |= lmask;
-
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
+        db = (dax_byte *)&_db[h.index].data[h.byte];
+        _left_shift(temp, data, h.size, h.bit);
+        for(n=0; n<h.size; n++) {
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((~(db[n] & temp[n])) & mask);
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -293,25 +266,20 @@ static int
 _atomic_xor(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
+        db = (dax_byte *)&_db[h.index].data[h.byte];
         _left_shift(temp, data, h.size, h.bit);
-
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
         for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((db[n] ^ temp[n]) & mask);
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -321,32 +289,20 @@ static int
 _atomic_xnor(tag_handle h, void *data) {
     int n;
     dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte mask, *db;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
+        db = (dax_byte *)&_db[h.index].data[h.byte];
+        _left_shift(temp, data, h.size, h.bit);
+        for(n=0; n<h.size; n++) {
+            mask = _bool_mask(h, n);
+            db[n] = (db[n] & ~mask) | ((~(db[n] ^ temp[n])) & mask);
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
-
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -356,6 +312,8 @@ _atomic_xnor(tag_handle h, void *data) {
 int
 atomic_op(tag_handle h, void *data, uint16_t op) {
     int result;
+    uint64_t size;
+
     /* We don't do these on custom data types */
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
@@ -364,9 +322,19 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
+    /* The size of the data has to match what the handle describes - we can use
+       the TYPESIZE macro here because we have already excluded CDTs */
+    if(h.type == DAX_BOOL) {
+        if(h.bit > 7 || h.count == 0) return ERR_ARG;
+        size = ((uint64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        size = (uint64_t)h.count * (TYPESIZE(h.type) / 8);
+    }
+    if(h.size != size) {
+        return ERR_ARG;
+    }
+    /* Bounds Check Size */
+    if(((uint64_t)h.byte + h.size) > tag_get_size(h.index)) {
         return ERR_2BIG;
     }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
-- 
2.43.0


From 5ca5996cd8956d20257327273bc329ffd60c76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 04/41] fix: maps are bit exact and removed without disturbing
 other maps

---
 src/server/mapping.c | 88 +++++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..b0b215d 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -32,6 +32,7 @@ _new_map(tag_handle src, tag_handle dest)
     _dax_datamap *new;
 
     new = (_dax_datamap *)malloc(sizeof(_dax_datamap));
+    if(new == NULL) return NULL;
     new->id = _db[src.index].nextmap++;
     new->source = src;
     new->dest = dest;
@@ -66,6 +67,7 @@ map_add(tag_handle src, tag_handle dest)
     _dax_datamap *new_map;
     _dax_datamap *this;
     int bit, offset;
+    uint32_t bits;
     uint8_t *mask;
 
     DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
@@ -79,6 +81,9 @@ map_add(tag_handle src, tag_handle dest)
        dax_log(DAX_LOG_ERROR, "Destination tag index %d for new mapping is out of bounds", dest.index);
        return ERR_ARG;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        return ERR_DELETED;
+    }
     if(is_tag_virtual(src.index)){
         return ERR_ILLEGAL;
     }
@@ -90,18 +95,37 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( ((uint64_t)src.byte + src.size) > tag_get_size(src.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( ((uint64_t)dest.byte + dest.size) > tag_get_size(dest.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
-    if( src.size > dest.size ) {
+    /* If either one is a BOOL then we have to copy the data bit by bit */
+    if(src.type == DAX_BOOL || dest.type == DAX_BOOL) {
+        if(src.type == DAX_BOOL &&
+           (src.bit > 7 || src.count == 0 || ((uint64_t)src.bit + src.count - 1) / 8 + 1 > src.size)) {
+            return ERR_ARG;
+        }
+        if(dest.type == DAX_BOOL &&
+           (dest.bit > 7 || dest.count == 0 || ((uint64_t)dest.bit + dest.count - 1) / 8 + 1 > dest.size)) {
+            return ERR_ARG;
+        }
+        bits = src.type == DAX_BOOL ? src.count : src.size * 8;
+        if(bits > (dest.type == DAX_BOOL ? dest.count : dest.size * 8)) {
+            dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
+            return ERR_2BIG;
+        }
+        if(src.type != DAX_BOOL) src.bit = 0;
+        if(dest.type != DAX_BOOL) dest.bit = 0;
+    } else if( src.size > dest.size ) {
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
+    } else {
+        bits = 0;
     }
     /* Check for duplicates */
     this = _db[src.index].mappings;
@@ -114,8 +138,9 @@ map_add(tag_handle src, tag_handle dest)
     }
 
     new_map = _new_map(src, dest);
+    if(new_map == NULL) return ERR_ALLOC;
 
-    if(src.type == DAX_BOOL) {
+    if(bits) {
         /* This basically creates a mask to write the bits that we want.
          * We are putting the bits in mask according to the destination.
          * The data itself will have to be shifted later when we write
@@ -123,9 +148,13 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
-        for(int i=0; i<src.count; i++) {
+        mask = (uint8_t *)malloc(dest.size);
+        if(mask == NULL) {
+            _free_map(new_map);
+            return ERR_ALLOC;
+        }
+        bzero(mask, dest.size);
+        for(uint32_t i=0; i<bits; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
             if(bit == 8) {
@@ -150,26 +179,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -210,8 +237,9 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
+    uint32_t bits;
     int srcByte;
     int srcBit;
     int destByte;
@@ -222,6 +250,7 @@ map_check(tag_index idx, int offset, int size) {
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
+        next = this->next; /* The map might get deleted below */
 
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
@@ -233,13 +262,14 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(this->dest.size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
-                for(int n=0; n<this->source.count; n++) {
+                bzero(new_data, this->dest.size);
+                bits = this->source.type == DAX_BOOL ? this->source.count : this->source.size * 8;
+                for(uint32_t n=0; n<bits; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
                     }
@@ -254,7 +284,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, (this->dest.bit + bits - 1) / 8 + 1);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +299,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
-- 
2.43.0


From 2d898fe123928e513f1b87bc7647b64687e22f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 05/41] fix: event conditions, data, deletion and registration
 checks

---
 src/server/events.c | 155 +++++++++++++++++++++++++-------------------
 1 file changed, 89 insertions(+), 66 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..f12e65a 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -21,6 +21,7 @@
 #include <common.h>
 #include "tagbase.h"
 #include "func.h"
+#include <sys/socket.h>
 #include <ctype.h>
 #include <assert.h>
 
@@ -30,6 +31,20 @@ extern _dax_tag_db *_db;
 
 /* Private function definitions */
 
+/* Returns a pointer to the data that belongs to the event */
+static uint8_t *
+_event_data(tag_index idx, _dax_event *event)
+{
+    tag_queue *q;
+
+    if(is_tag_queue(idx)) { /* The data is the last item that was written */
+        q = (tag_queue *)((virt_functions *)_db[idx].data)->userdata;
+        if(q->qcount > 0) return q->queue[(q->qread + q->qcount - 1) % q->qsize];
+        return q->queue[0]; /* We'll only send data if something was written */
+    }
+    return &_db[idx].data[event->byte];
+}
+
 static int
 _send_event(tag_index idx, _dax_event *event)
 {
@@ -49,13 +64,15 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
     if(event->options & EVENT_OPT_SEND_DATA) {
-        memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
+        memcpy(&buff[16], _event_data(idx, event), event->size);
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
          event->eventtype, event->notify->fd);
     result = xwrite(event->notify->fd, buff, msgsize);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_send_event: %s", strerror(errno));
+        /* Part of the message may have been sent so this connection is useless */
+        shutdown(event->notify->fd, SHUT_RDWR);
         return ERR_MSG_SEND;
     }
     return 0;
@@ -205,7 +222,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -219,6 +235,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             u1.dax_ulint = *(dax_ulint *)data1;
             u2.dax_ulint = *(dax_ulint *)data2;
             if(u1.dax_ulint < u2.dax_ulint) return -1;
@@ -249,20 +266,21 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
 
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int inc, bit, last, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    /* For these 'this' is a bit field */
+    /* For these 'this' is a bit field.  We look at every item that has
+     * been affected even if it's only part of it */
     bit = MAX(0, (offset - event->byte) / inc);
+    last = (MIN(event->byte + (int)event->size, offset + size) - event->byte - 1) / inc;
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    while(bit <= last) {
         mask = 0x01<<(bit%8);
-        if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
+        if(_generic_compare(event->datatype, event->data, &(that[bit * inc])) == compare) {
             if(!(this[bit/8] & mask)) {
                 this[bit/8] |= mask;
                 result = 1;
@@ -275,6 +293,19 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
     return result;
 }
 
+/* These figure the deadband without overflowing the datatype.  A negative
+ * deadband is always exceeded */
+static inline int
+_deadband_signed(int64_t a, int64_t b, int64_t db) {
+    uint64_t diff = a > b ? (uint64_t)a - (uint64_t)b : (uint64_t)b - (uint64_t)a;
+    return db < 0 || diff >= (uint64_t)db;
+}
+
+static inline int
+_deadband_unsigned(uint64_t a, uint64_t b, uint64_t db) {
+    return (a > b ? a - b : b - a) >= db;
+}
+
 /* This function calculates whether the deadband has been exceeded for each of the
  * different datatypes.  Returns 1 if the deadband has been exceeded and 0 otherwise */
 static inline int
@@ -283,50 +314,26 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
     switch(event->datatype) {
         case DAX_BYTE:
-            db.dax_byte = *(dax_byte *)event->data;
-            diff.dax_int = *(dax_byte *)data1 - *(dax_byte *)data2;
-            if(ABS(diff.dax_int) >= db.dax_byte) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_byte *)data1, *(dax_byte *)data2, *(dax_byte *)event->data);
         case DAX_SINT:
         case DAX_CHAR:
-            db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_sint *)data1, *(dax_sint *)data2, *(dax_sint *)event->data);
         case DAX_UINT:
         case DAX_WORD:
-            db.dax_uint = *(dax_uint *)event->data;
-            diff.dax_dint = *(dax_uint *)data1 - *(dax_uint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_uint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_uint *)data1, *(dax_uint *)data2, *(dax_uint *)event->data);
         case DAX_INT:
-            db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_int *)data1, *(dax_int *)data2, *(dax_int *)event->data);
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_udint *)data1, *(dax_udint *)data2, *(dax_udint *)event->data);
         case DAX_DINT:
-            db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_dint *)data1, *(dax_dint *)data2, *(dax_dint *)event->data);
         case DAX_ULINT:
         case DAX_LWORD:
-            db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
-            else return 0;
+        case DAX_TIME:
+            return _deadband_unsigned(*(dax_ulint *)data1, *(dax_ulint *)data2, *(dax_ulint *)event->data);
         case DAX_LINT:
-            db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_lint *)data1, *(dax_lint *)data2, *(dax_lint *)event->data);
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
             diff.dax_real = *(dax_real *)data1 - *(dax_real *)data2;
@@ -345,19 +352,21 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
 static inline int
 _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
-    int n, inc, len, result;
+    int n, inc, last, result;
     uint8_t *this, *that;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    /* Look at every item that has been affected even if it's only part of it */
+    n = MAX(0, (offset - event->byte) / inc);
+    last = (MIN(event->byte + (int)event->size, offset + size) - event->byte - 1) / inc;
 
-    for(n = 0; n < len; n += inc) {
-        if(_generic_deadband(event, &this[n], &that[n])) {
+    for(; n <= last; n++) {
+        if(_generic_deadband(event, &this[n * inc], &that[n * inc])) {
             result = 1;
-            memcpy(&this[n], &that[n], inc);
+            memcpy(&this[n * inc], &that[n * inc], inc);
         }
     }
     return result;
@@ -442,8 +451,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -465,6 +474,10 @@ _verify_event_type(tag_type ttype, int etype)
             return 0;
         }
     }
+    if(etype != EVENT_GREATER && etype != EVENT_LESS && etype != EVENT_DEADBAND) {
+        dax_log(DAX_LOG_ERROR, "Unknown event type in new event");
+        return -1;
+    }
     /* At this point the only ones left are < > and deadband.  All
      * except Booleans and Custom datatypes can use these */
     if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
@@ -473,9 +486,6 @@ _verify_event_type(tag_type ttype, int etype)
     } else {
         return 0;
     }
-    /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
-    return -1;
 }
 
 /* This function figures out how big the *data and *test memory blocks need
@@ -498,11 +508,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
             break;
         case EVENT_CHANGE:
             datasize = 0;
-            if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
-            } else {
-                testsize = type_size(event->datatype) * event->count;
-            }
+            testsize = event->size;
             break;
         case EVENT_DEADBAND:
             size = type_size(event->datatype);
@@ -512,7 +518,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = event->size;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
@@ -594,13 +600,17 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
+    if(_db[h.index].data == NULL) {
+        dax_log(DAX_LOG_ERROR, "Tag for new event has been deleted");
+        return ERR_DELETED;
+    }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if( (uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
@@ -608,6 +618,13 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
     }
+    /* The size has to match the items that we are going to look at */
+    if(h.type == DAX_BOOL) {
+        if(h.count == 0 || h.bit > 7 || h.size != ((uint64_t)h.bit + h.count - 1) / 8 + 1) return ERR_ARG;
+    } else {
+        result = type_size(h.type);
+        if(h.count == 0 || result <= 0 || h.size != (uint64_t)result * h.count) return ERR_ARG;
+    }
     /* If everything is okay then allocate the new event. */
     new = xmalloc(sizeof(_dax_event));
     if(new == NULL) {
@@ -625,7 +642,7 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
     new->notify = module;
     result = _set_event_data(new, h.index, data);
     if(result) {
-        free(new);
+        xfree(new);
         return result;
     }
 
@@ -651,6 +668,7 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
  * and bad things will happen. */
 static void
 _free_event(_dax_event *event) {
+    event->notify->event_count--; /* Decrement the Module's event reference counter */
     if(event->data != NULL) free(event->data);
     if(event->test != NULL) free(event->test);
     free(event);
@@ -689,9 +707,11 @@ event_del(int index, int id, dax_module *module)
         }
         _db[index].events = this->next;
         _free_event(this);
+        this = NULL;
+        result = 0;
     }
     last = this;
-    this = this->next;
+    if(this != NULL) this = this->next;
     while(this != NULL) {
         if(this->id == id) {
             if(this->notify != module) {
@@ -710,7 +730,7 @@ event_del(int index, int id, dax_module *module)
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
     }
-    module->event_count--;
+    if(result) return result;
     dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
     return result;
 }
@@ -747,6 +767,8 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
     	dax_log(DAX_LOG_ERROR, "Module cannot modify another module's event");
         return ERR_AUTH;
     }
+    /* The data has to fit in the event message */
+    if(options & EVENT_OPT_SEND_DATA && event->size + 16 > DAX_MSGMAX) return ERR_2BIG;
 
     event->options = options;
     return 0;
@@ -757,7 +779,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +789,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
-- 
2.43.0


From 0a6431618fa370beff3dd45d5edaaa619e7360f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 06/41] fix: split, merged and malformed requests; stalled
 modules; group bounds

---
 src/server/buffer.c  | 57 +++++++++++++-------------
 src/server/groups.c  | 74 +++++++++++++++++++++++++++++-----
 src/server/groups.h  |  4 +-
 src/server/message.c | 95 +++++++++++++++++++++++++++++++-------------
 4 files changed, 161 insertions(+), 69 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..2a7bc74 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -133,11 +133,14 @@ find_buff_slot(int fd)
     return result;
 }
 
+/* Reads whatever is available on the socket and dispatches every complete
+ * message.  An incomplete message stays in the buffer until the rest of it
+ * arrives.  Returns ERR_NO_SOCKET if the connection should be closed */
 int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
 
     node = find_buff_slot(fd);
@@ -152,8 +155,9 @@ buff_read(int fd)
     //--result = xread(fd, &node->buffer[node->index], size);
 
     if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0;
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
-        return ERR_MSG_RECV;
+        return ERR_NO_SOCKET;
     } if(result == 0) { /* EOF means the other guy is closed */
         dax_log(DAX_LOG_COMM, "Received EOF on socket %d", fd);
         return ERR_NO_SOCKET;
@@ -161,17 +165,20 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
-    /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+    while(node->index >= MSG_HDR_SIZE) {
+        /* First four bytes of a message should always be the size of
+           the message and it should be in network byte order */
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            dax_log(DAX_LOG_ERROR, "Message with bad size %u received on socket %d", size, fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < size) break; /* Wait for the rest of it */
+        msg_dispatcher(fd, node->buffer);
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
+    if(node->index == 0) node->fd = 0; /* The buffer can be used by another socket */
     return 0;
 }
 
@@ -195,8 +202,8 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
+/* If there are more than min_buffers nodes in the list this will free() the
+ * last one as long as it is not holding a partial message.  Kindof a poor boy
  * garbage collection. */
 void
 buff_freeall(void)
@@ -204,23 +211,17 @@ buff_freeall(void)
     int n;
     dax_buffnode *node, *last;
 
-    n = 0;
+    n = 1;
     node = _buffer;
     last = NULL;
 
-    while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
+    while(node != NULL && node->next != NULL) {
+        last = node;
+        node = node->next;
         n++;
-        /* If we are the last node, there are more than min_buffers nodes in the list
-           and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
-            free(node);
-            node = NULL;
-            last->next = NULL;
-        } else {
-            last = node;
-            node = node->next;
-        }
+    }
+    if(last != NULL && n > opt_min_buffers() && node->fd == 0) {
+        last->next = NULL;
+        free(node);
     }
 }
diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..556bb8a 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -79,7 +79,9 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, offset;
+    uint64_t datasize;
+    tag_handle *h;
 
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
@@ -97,16 +99,25 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].size, &handles[offset+13], 4);
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
-        datasize += mod->tag_groups[index].members[n].size;
+        h = &mod->tag_groups[index].members[n];
+        datasize += h->size;
         if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
             return ERR_2BIG;
         }
+        /* The bits have to fit in the data that the handle covers */
+        if(h->type == DAX_BOOL &&
+           (h->bit > 7 || ((uint64_t)h->bit + h->count + 7) / 8 > h->size)) {
+            free(mod->tag_groups[index].members);
+            mod->tag_groups[index].members = NULL;
+            return ERR_ARG;
+        }
     }
 
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
+    mod->tag_groups[index].size = datasize;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
     return index;
 }
@@ -114,48 +125,89 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 
 /* Deletes a single tag group from the given module */
 int
-group_del(dax_module *mod, int index) {
+group_del(dax_module *mod, uint32_t index) {
+    if(index >= mod->groups_size) return ERR_NOTFOUND;
     if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
+    mod->tag_groups[index].members = NULL;
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
+    mod->tag_groups[index].size = 0;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
 
+/* Copies count bits starting at srcbit in *src to destbit in *dest */
+static void
+_copy_bits(uint8_t *dest, int destbit, uint8_t *src, int srcbit, uint32_t count) {
+    for(uint32_t n=0; n<count; n++) {
+        if(src[(srcbit+n) / 8] & (0x01 << ((srcbit+n) % 8))) {
+            dest[(destbit+n) / 8] |= (0x01 << ((destbit+n) % 8));
+        }
+    }
+}
+
 /* loop through the array of members and populate buff with
  * the data.*/
 int
 group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
+    tag_handle *h;
+    uint8_t temp[MSG_TAG_GROUP_DATA_SIZE];
 
+    if(index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        h = &group->members[n];
+        result = tag_read(mod->fd, h->index, h->byte, &buff[offset], h->size);
         if(result) return result;
-        offset += group->members[n].size;
+        if(h->type == DAX_BOOL) { /* The bits start at the first bit in the buffer */
+            memcpy(temp, &buff[offset], h->size);
+            bzero(&buff[offset], h->size);
+            _copy_bits(&buff[offset], 0, temp, h->bit, h->count);
+        }
+        offset += h->size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* loop through the array of members and write the data from buff
+ * to each of them.  Nothing is written unless it can all be written */
 int
-group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
+group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
+    tag_handle *h;
+    uint8_t data[MSG_TAG_GROUP_DATA_SIZE], mask[MSG_TAG_GROUP_DATA_SIZE], ones[MSG_TAG_GROUP_DATA_SIZE];
 
+    if(index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        h = &group->members[n];
+        result = tag_check_write(mod->fd, h->index, h->byte, h->size);
+        if(result) return result;
+    }
+    memset(ones, 0xFF, sizeof(ones));
+    for(n = 0;n<group->count;n++) {
+        h = &group->members[n];
+        if(h->type == DAX_BOOL) { /* Don't touch the bits that are not ours */
+            bzero(data, h->size);
+            bzero(mask, h->size);
+            _copy_bits(data, h->bit, &buff[offset], 0, h->count);
+            _copy_bits(mask, h->bit, ones, 0, h->count);
+            result = tag_mask_write(mod->fd, h->index, h->byte, data, mask, h->size);
+        } else {
+            result = tag_write(mod->fd, h->index, h->byte, &buff[offset], h->size);
+        }
         if(result) return result;
-        offset += group->members[n].size;
+        map_check(h->index, h->byte, h->size);
+        offset += h->size;
     }
     return offset;
 }
diff --git a/src/server/groups.h b/src/server/groups.h
index f70506d..637b7ad 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -36,9 +36,9 @@
  */
 
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
-int group_del(dax_module *mod, int index);
+int group_del(dax_module *mod, uint32_t index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
-int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
+int group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int groups_cleanup(dax_module *mod);
 
 #endif /* !__DAX_GROUPS_H */
diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..0d4f138 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -57,6 +57,18 @@ static int _maxfd;
 /* Index 0 is not used. */
 int (*cmd_arr[NUM_COMMANDS+1])(dax_message *) = {NULL};
 
+/* The smallest payload that the handler of each command can deal with */
+static const uint32_t cmd_min_size[NUM_COMMANDS+1] = {
+    [MSG_TAG_ADD] = 13,   [MSG_TAG_DEL] = 4,    [MSG_TAG_GET] = 2,
+    [MSG_TAG_READ] = 12,  [MSG_TAG_WRITE] = 8,  [MSG_TAG_MWRITE] = 8,
+    [MSG_EVNT_ADD] = 25,  [MSG_EVNT_DEL] = 8,   [MSG_EVNT_OPT] = 12,
+    [MSG_CDT_CREATE] = 1, [MSG_CDT_GET] = 2,    [MSG_MAP_ADD] = 42,
+    [MSG_MAP_DEL] = 8,    [MSG_MAP_GET] = 8,    [MSG_GRP_ADD] = 2,
+    [MSG_GRP_DEL] = 4,    [MSG_GRP_READ] = 4,   [MSG_GRP_WRITE] = 4,
+    [MSG_ATOMIC_OP] = 21, [MSG_ADD_OVRD] = 12,  [MSG_DEL_OVRD] = 8,
+    [MSG_GET_OVRD] = 12,  [MSG_SET_OVRD] = 5
+};
+
 /* Macro to check whether or not the command 'x' is valid */
 #define CHECK_COMMAND(x) (((x) <= 0 || (x) > NUM_COMMANDS) ? 1 : 0)
 
@@ -115,6 +127,8 @@ _message_send(int fd, int command, void *payload, size_t size, int response)
     result = xwrite(fd, buff, size + MSG_HDR_SIZE);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+        /* Part of the message may have been sent so this connection is useless */
+        shutdown(fd, SHUT_RDWR);
         return ERR_MSG_SEND;
     }
     return 0;
@@ -319,8 +333,15 @@ msg_receive(void)
                     if(fd < 0) {
                         /* TODO: Need to handle these errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) {
+                        dax_log(DAX_LOG_ERROR, "Too many connections");
+                        close(fd);
                     } else {
                         dax_log(DAX_LOG_COMM, "Accepted socket on fd %d", n);
+                        /* Don't let a module that stopped reading hold up the others */
+                        tm.tv_sec = 0;
+                        tm.tv_usec = 500000;
+                        setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm));
                         msg_add_fd(fd);
                     }
                 } else {
@@ -329,8 +350,6 @@ msg_receive(void)
                         dax_log(DAX_LOG_COMM, "Connection Closed for fd %d", n);
                         module_unregister(n);
                         msg_del_fd(n);
-                    } else if(result < 0) {
-                        return result; /* Pass the error up */
                     }
                 }
             }
@@ -347,6 +366,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -358,7 +378,12 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
+    /* Don't let the handlers see whatever was there before */
+    memset(&message.data[message.size], 0, MSG_DATA_SIZE - message.size);
+    if(message.size < cmd_min_size[message.msg_type]) {
+        result = ERR_MSG_BAD;
+        return _message_send(fd, message.msg_type, &result, sizeof(result), ERROR);
+    }
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
@@ -384,6 +409,7 @@ msg_mod_register(dax_message *msg)
     dax_time starttime;
 
     if(msg->size > 0) {
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -396,7 +422,7 @@ msg_mod_register(dax_message *msg)
             if(!mod) {
                 result = ERR_NOTFOUND;
                 _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
-                return result;
+                return 0;
             } else {
                 tag_read(-1, INDEX_STARTED, 0, &starttime, 4);
                 *((uint32_t *)&buff[0]) = (uint32_t)starttime;   /* The lower 32 bits of the servers start time is the ID */
@@ -431,6 +457,7 @@ msg_tag_add(dax_message *msg)
     uint32_t count;
     uint32_t attr;
 
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
@@ -486,7 +513,7 @@ msg_tag_get(dax_message *msg)
 {
     int result, index, size;
     dax_tag tag;
-    char *buff;
+    char buff[DAX_TAGNAME_SIZE + 15];
 
     if(msg->data[0] == TAG_GET_INDEX) { /* Is it a string or index */
         index = *((tag_index *)&msg->data[1]); /* cast void * -> handle_t * then indirect */
@@ -498,10 +525,8 @@ msg_tag_get(dax_message *msg)
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
@@ -542,7 +567,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > MSG_DATA_SIZE) {
+        result = ERR_2BIG;
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
@@ -598,7 +627,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
@@ -661,8 +690,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -692,8 +721,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
@@ -816,15 +845,15 @@ msg_map_del(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_DEL, &result, sizeof(int), RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int msg_map_get(dax_message *msg)
 {
     int result;
     dax_id id;
-    tag_handle src, dest;
-    uint8_t buff[sizeof(tag_handle) * 2];
+    tag_handle src = {0}, dest = {0};
+    uint8_t buff[sizeof(tag_handle) * 2] = {0};
 
     id.index = *(dax_dint *)msg->data;
     id.id = *(dax_dint *)&msg->data[4];
@@ -851,7 +880,7 @@ int msg_map_get(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_GET, &buff, sizeof(tag_handle) * 2, RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int
@@ -863,11 +892,17 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(mod == NULL) {
+        id = ERR_NOTFOUND;
+    } else if(msg->size < 2 + 21 * (uint32_t)count) {
+        id = ERR_MSG_BAD;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod ? mod->name : "?", id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
@@ -883,10 +918,10 @@ msg_group_del(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_del(mod, index);
+    result = mod == NULL ? ERR_NOTFOUND : group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod ? mod->name : "?", result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
@@ -903,10 +938,10 @@ msg_group_read(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
+    result = mod == NULL ? ERR_NOTFOUND : group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod ? mod->name : "?", result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
@@ -923,10 +958,10 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    result = mod == NULL ? ERR_NOTFOUND : group_write(mod, index, (uint8_t *)&msg->data[4], msg->size - 4);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod ? mod->name : "?", result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
@@ -941,7 +976,7 @@ msg_group_mask_write(dax_message *msg) {
     result = ERR_NOTIMPLEMENTED;
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_MWRITE, &result, sizeof(int), ERROR);
-        //dax_log(LOG_MSGERR, "Group Masked Write Message for %s Returning Error %d",mod->name, result);
+        //dax_log(LOG_MSGERR, "Group Masked Write Message for %s Returning Error %d",mod ? mod->name : "?", result);
     } else {
         _message_send(msg->fd, MSG_GRP_MWRITE, NULL, 0, RESPONSE);
         //dax_log(LOG_MSG, "Group Masked Write Message for %s", mod->name);
@@ -1026,7 +1061,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > MSG_DATA_SIZE / 2) {
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
-- 
2.43.0


From 6f8cb8c57103cc00837b7e21c64a590014265e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 07/41] fix: unique module tags and failed allocations in
 module registration

---
 src/server/module.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..fbdac6b 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -121,6 +121,10 @@ module_add(char *name, unsigned int flags)
 
         /* name the module */
         new->name = strdup(name);
+        if(new->name == NULL) {
+            xfree(new);
+            return NULL;
+        }
         if(_current_mod == NULL) { /* List is empty */
             new->next = new;
             new->prev = new;
@@ -230,7 +234,7 @@ module_register(char *name, uint32_t timeout, int fd)
 {
     dax_module *mod, *test;
     char tagname[DAX_TAGNAME_SIZE + 1];
-    int result, x;
+    int result, x, len;
     dax_time starttime;
 
     bzero(tagname, DAX_TAGNAME_SIZE + 1);
@@ -254,13 +258,13 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
-            result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            len = strlen(tagname);
+            while(tag_get_name(tagname, NULL) == 0) {
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
+                    x = MIN(len, DAX_TAGNAME_SIZE -3);
                     sprintf(&tagname[x], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
+                    x = MIN(len, DAX_TAGNAME_SIZE -5);
                     sprintf(&tagname[x], "%05d", _mod_uuid++);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
@@ -270,14 +274,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -307,7 +311,8 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        /* There may not be a module tag and index zero is a system tag */
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From aab9cf7b473f04be3be0f5654de41b4f8b6c2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 08/41] fix: boolean range and masked writes in the library

---
 src/lib/libdata.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..1035765 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -365,6 +365,7 @@ dax_tag_read(dax_state *ds, tag_handle handle, void *data)
         bad data if another module updates the tag between reads.  If
         the size of the data type is larger than our maximum data size
         then we error out instead of risking bad data. */
+        if(type_size <= 0) return ERR_ARG;
         if(type_size > MSG_DATA_SIZE) return ERR_2BIG;
         n = 0;
         while(tsize > 0) {
@@ -432,7 +433,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
@@ -524,12 +525,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -552,13 +548,12 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -580,6 +575,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) {
             tsize = handle.size;
             type_size = dax_get_typesize(ds, handle.type);
+            if(type_size <= 0) return ERR_ARG;
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
@@ -618,12 +614,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -639,20 +630,21 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &newdata[n], &newmask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -674,6 +666,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = handle.size;
             type_size = dax_get_typesize(ds, handle.type);
+            if(type_size <= 0) return ERR_ARG;
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
-- 
2.43.0


From 05a9fb1398e175e3ba1dcaf9517c453c9a1ff107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 09/41] fix: attribute callback loop and uninitialised result
 in the library's configuration

---
 src/lib/libopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 526a041..734c3c2 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -239,6 +239,7 @@ dax_attr_callback(dax_state *ds, char *name, int (*attr_callback)(char *name, ch
             this->callback = attr_callback;
             return 0;
         }
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -552,7 +553,7 @@ int
 dax_configure(dax_state *ds, int argc, char **argv, int flags)
 {
     char *topics;
-    int result;
+    int result = 0;
 
     if(ds->modulename == NULL) {
         return ERR_NO_INIT;
-- 
2.43.0


From d74f6067709bf3ddce2df469817fab5076f9b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 10/41] fix: compound type layout, references and cache in the
 library

---
 src/lib/libcdt.c | 341 ++++++++++++++++++++++++-----------------------
 src/lib/libdax.h |  17 ++-
 2 files changed, 186 insertions(+), 172 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..2cf285f 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -29,6 +29,21 @@
 # define DAX_DATATYPE_SIZE 8
 #endif
 
+static void
+_cdt_member_free(cdt_member *member) {
+    if(member->next != NULL) _cdt_member_free(member->next);
+    if(member->name != NULL) free(member->name);
+    free(member);
+}
+
+static void
+_free_type(datatype *type) {
+    if(type->members != NULL) _cdt_member_free(type->members);
+    if(type->name != NULL) free(type->name);
+    type->members = NULL;
+    type->name = NULL;
+}
+
 /* Inserts the given datatype into the array */
 static int
 _insert_type(dax_state *ds, int index, char *typename) {
@@ -78,6 +93,12 @@ _add_member_to_cache(dax_state *ds, int index, char *desc) {
     if(name && type && (count > 0)) {
         new->name = strdup(name);
         new->type = dax_string_to_type(ds, type);
+        if(new->name == NULL || new->type == 0) {
+            count = new->name == NULL ? ERR_ALLOC : ERR_NOTFOUND;
+            free(new->name);
+            free(new);
+            return count;
+        }
         new->count = count;
         new->next = NULL;
         //--printf("_add_member() - name = %s type = 0x%X count = %ld\n", new->name, new->type, new->count);
@@ -109,7 +130,7 @@ _add_member_to_cache(dax_state *ds, int index, char *desc) {
 int
 dax_get_typesize(dax_state *ds, tag_type type)
 {
-    int size = 0;
+    int size = 0, count;
     unsigned int pos = 0; /* Bit position within the data area */
     cdt_member *this;
 
@@ -118,7 +139,9 @@ dax_get_typesize(dax_state *ds, tag_type type)
         return ERR_ARG;
 
     if(IS_CUSTOM(type)) {
+        pthread_mutex_lock(&ds->lock);
         this = ds->datatypes[CDT_TO_INDEX(type)].members;
+        pthread_mutex_unlock(&ds->lock);
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
                 pos += this->count; /* BOOLs are easy just add the number of bits */
@@ -131,7 +154,9 @@ dax_get_typesize(dax_state *ds, tag_type type)
                     pos++;
                 }
                 if(IS_CUSTOM(this->type)) {
-                    pos += (dax_get_typesize(ds, this->type) * this->count) * 8;
+                    count = dax_get_typesize(ds, this->type);
+                    if(count < 0) return count;
+                    pos += (count * this->count) * 8;
                 } else {
                     /* This gets the size in bits */
                     pos += TYPESIZE(this->type) * this->count;
@@ -167,7 +192,7 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
             return &ds->datatypes[index];
         } else {
             result = dax_cdt_get(ds, type, NULL);
-            if(result == 0) {
+            if(result == 0 && index < ds->datatype_size && ds->datatypes[index].name != NULL) {
                 return &ds->datatypes[index];
             } else {
                 if(error != NULL) *error = result;
@@ -179,6 +204,21 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
     }
 }
 
+/* Same but only returns the name of the type which, unlike the pointer,
+ * can be used without holding the lock */
+static const char *
+_type_name(dax_state *ds, tag_type type, int *error)
+{
+    datatype *dt;
+    const char *name = NULL;
+
+    pthread_mutex_lock(&ds->lock);
+    dt = get_cdt_pointer(ds, type, error);
+    if(dt != NULL) name = dt->name;
+    pthread_mutex_unlock(&ds->lock);
+    return name;
+}
+
 /* Adds the given type to the array cache.  'type' is the type id
  * and typedesc is the type description string that would be generated
  * by a call to serialize_datatype() in the server. */
@@ -189,6 +229,8 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
     char *str, *last;
 
     index = CDT_TO_INDEX(type);
+    /* Types never change so there is nothing to do if we have it already */
+    if(index < ds->datatype_size && ds->datatypes[index].name != NULL) return 0;
 
     if(ds->datatype_size == 0) { /* Make sure we have an array */
         /* Allocate the datatype array and set the initial counters */
@@ -231,15 +273,35 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         return ERR_ARG;
     }
     result = _insert_type(ds, index, str);
+    if(result) return result;
 
     while( (str = strtok_r(NULL, ":", &last)) ) {
         result = _add_member_to_cache(ds, index, str);
-        if(result) return result;
+        if(result) { /* Don't leave a partial definition in the cache */
+            _free_type(&ds->datatypes[index]);
+            return result;
+        }
     }
     //DF("add_cdt_to_cache() type = 0x%X, name = %s", type, typedesc);
     return 0;
 }
 
+/* Empties the cache.  The types may be different after we connect again */
+void
+free_cdt_cache(dax_state *ds)
+{
+    int n;
+
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->datatype_size; n++) {
+        _free_type(&ds->datatypes[n]);
+    }
+    free(ds->datatypes);
+    ds->datatypes = NULL;
+    ds->datatype_size = 0;
+    pthread_mutex_unlock(&ds->lock);
+}
+
 /*!
  * Creates an empty Custom Datatype
  *
@@ -316,7 +378,10 @@ dax_cdt_member(dax_state *ds, dax_cdt *cdt, char *name, tag_type type, unsigned
 
     /* Assign values */
     new->name = strdup(name);
-    if(new->name == NULL) return ERR_ALLOC;
+    if(new->name == NULL) {
+        free(new);
+        return ERR_ALLOC;
+    }
     new->type = type;
     new->count = count;
     new->next = NULL;
@@ -328,13 +393,6 @@ dax_cdt_member(dax_state *ds, dax_cdt *cdt, char *name, tag_type type, unsigned
     return 0;
 }
 
-static void
-_cdt_member_free(cdt_member *member) {
-    if(member->next != NULL) _cdt_member_free(member->next);
-    if(member->name != NULL) free(member->name);
-    free(member);
-}
-
 /*!
  * Free the compound data type.  This function will only be
  * used by the module if the dax_cdt_create() function is never
@@ -363,7 +421,8 @@ dax_cdt_free(dax_cdt *cdt) {
 tag_type
 dax_string_to_type(dax_state *ds, char *type)
 {
-    int result, n;
+    int n;
+    tag_type found = 0;
 
     if(type == NULL) return 0;
     if(!strcasecmp(type, "BOOL"))  return DAX_BOOL;
@@ -383,28 +442,26 @@ dax_string_to_type(dax_state *ds, char *type)
     if(!strcasecmp(type, "ULINT")) return DAX_ULINT;
     if(!strcasecmp(type, "LREAL")) return DAX_LREAL;
 
+    pthread_mutex_lock(&ds->lock);
     /* See if we already have it in the cache */
     for(n = 0; n<ds->datatype_size; n++) {
         if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-            return CDT_TO_TYPE(n);
+            found = CDT_TO_TYPE(n);
         }
     }
 
     /* If not go to the server for it */
-    result = dax_cdt_get(ds, 0, type);
-
-    if(result) {
-        return 0;
-    } else {
+    if(found == 0 && dax_cdt_get(ds, 0, type) == 0) {
         /* Search Again - It'll be there this time */
         for(n = 0; n < ds->datatype_size; n++) {
             if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-                return CDT_TO_TYPE(n);
+                found = CDT_TO_TYPE(n);
             }
         }
     }
+    pthread_mutex_unlock(&ds->lock);
     /* We should have found it by now.  If not return error */
-    return 0;
+    return found;
 }
 
 /*!
@@ -418,19 +475,8 @@ dax_string_to_type(dax_state *ds, char *type)
 const char *
 dax_type_to_string(dax_state *ds, tag_type type)
 {
-    int index;
-
-    /* TODO: Could replace this with a call to get_cdt_pointer() */
     if(IS_CUSTOM(type)) {
-        index = CDT_TO_INDEX(type);
-        if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return ds->datatypes[index].name;
-        } else {
-            if(!dax_cdt_get(ds, type, NULL)) {
-                return ds->datatypes[index].name;
-            }
-            return NULL;
-        }
+        return _type_name(ds, type, NULL);
     } else {
         switch (type) {
             case DAX_BOOL:
@@ -506,6 +552,7 @@ _get_index(char *str)
         for(k = i+1; k < len && str[k] != ']'; k++) {
             if(str[k] < '0' || str[k] > '9') return ERR_ARG;
         }
+        if(k == i+1 || k - i > 10 || k != len - 1) return ERR_ARG;
         index = atoi(str + i + 1);
     } else {
         index = ERR_NOTFOUND;
@@ -521,6 +568,7 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
 {
     char *endptr;
     int size;
+    long bit;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
        type == DAX_REAL || type == DAX_LREAL ||
@@ -528,21 +576,21 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
            return ERR_BADTYPE;
        }
     if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
+    if(bit > size*8) {
         return ERR_2BIG;
     }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if((bit + count) > size*8) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
+    h->byte += size * index + (bit / 8);
+    h->bit = bit % 8;
     h->type = DAX_BOOL;
     h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
     h->count = count;
@@ -552,7 +600,8 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
 static int
 _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, int count)
 {
-    int index, result, size;
+    int index, size;
+    uint32_t pos = 0; /* Bit position of the member within the type */
     char *name = str;
     char *nextname;
     cdt_member *this;
@@ -566,6 +615,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return index;
     }
 
+    if(!IS_CUSTOM(lasttype)) return ERR_ARG; /* No members in there */
     if(dax_type_to_string(ds, lasttype) == NULL) {
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
@@ -573,80 +623,54 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
     this = ds->datatypes[CDT_TO_INDEX(lasttype)].members;
 
     while(this != NULL) {
-        /* Start by adding all the bytes of the members before the
-         * one we are looking for */
-        if(strcmp(name, this->name)) {
-            if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
-            } else {
-                /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
-                h->byte += dax_get_typesize(ds, this->type) * this->count;
-                h->bit = 0;
-            }
-            h->type = this->type; /* We need to keep track of the last type */
-
-            this = this->next;
-        } else { /* Here we have found it */
-            break;
+        /* Everything but BOOLs start on the next byte */
+        if(this->type != DAX_BOOL) pos = (pos + 7) / 8 * 8;
+        if(!strcmp(name, this->name)) break; /* Here we have found it */
+        /* Add all the bits of the members before the one we are looking for */
+        if(this->type == DAX_BOOL) {
+            pos += this->count;
+        } else {
+            pos += dax_get_typesize(ds, this->type) * this->count * 8;
         }
-
+        this = this->next;
     }
     if(this == NULL) return ERR_NOTFOUND;
+    if(index != ERR_NOTFOUND && index >= this->count) return ERR_2BIG;
 
     if(nextname) { /* Not the last item */
+        h->byte += pos / 8;
         if(isdigit(nextname[0])) {
             if(this->count > 1 && index <0) {
                 return ERR_ARG;
             }
             return _parse_bit_index(ds, this->type, h, nextname, index, count);
         }
-        result = _parse_next_member(ds, this->type, h, nextname, count);
-        if(result) return result;
         if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
             h->byte += dax_get_typesize(ds, this->type) * index;
         }
+        return _parse_next_member(ds, this->type, h, nextname, count);
     } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
         h->type = this->type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
             if((index + count) > this->count ) return ERR_2BIG;
-            if(this->type == DAX_BOOL) {
-                h->byte += index / 8;
-                h->bit += index % 8;
-                /* Two bits across the byte boundry require two bytes */
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->size = size * count;
-                h->byte += size * index;
-                h->bit = 0;
-                h->count = count;
-            }
         } else { /* This is where no index was given */
             if(count > this->count) return ERR_2BIG;
             if(count == 0) count = this->count;
-            if(this->type == DAX_BOOL) {
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->bit = 0;
-                h->size = size * count;
-                h->count = count;
-            }
+            index = 0;
+        }
+        h->count = count;
+        if(this->type == DAX_BOOL) {
+            pos += index;
+            h->byte += pos / 8;
+            h->bit = pos % 8;
+            /* Two bits across the byte boundry require two bytes */
+            h->size = (h->bit + count - 1) / 8 + 1;
+        } else {
+            size = dax_get_typesize(ds, this->type);
+            h->byte += pos / 8 + size * index;
+            h->bit = 0;
+            h->size = size * count;
         }
     }
     return 0;
@@ -672,6 +696,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
     result = dax_tag_byname(ds, &tag, tagname);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
+    if(index != ERR_NOTFOUND && index >= tag.count) return ERR_2BIG;
 
     if(membername) {
         /* This is the case where the .x is a number referring to a bit */
@@ -753,8 +778,11 @@ dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
     if(h == NULL || ds == NULL || str == NULL) {
         return ERR_ARG;
     }
+    if(count < 0) return ERR_ARG;
     bzero(h, sizeof(tag_handle)); /* Initialize h */
+    pthread_mutex_lock(&ds->lock);
     result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count);
+    pthread_mutex_unlock(&ds->lock);
     if(result) {
         bzero(h, sizeof(tag_handle)); /* Reset h in case of error */
     }
@@ -782,31 +810,34 @@ dax_cdt_iter(dax_state *ds, tag_type type, void *udata, void (*callback)(cdt_ite
     datatype *dt;
     cdt_member *this;
     cdt_iter iter;
+    const char *name;
     int result;
     int byte = 0;
     int bit = 0;
     int index = 0;
 
     if(type == 0) { /* iterate through the custom types */
-        dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+        name = _type_name(ds, CDT_TO_TYPE(index), &result);
 
         while(result == 0 || result == ERR_INUSE) {
             if(result == 0) {
-                iter.name = dt->name;
+                iter.name = name;
                 iter.type = CDT_TO_TYPE(index);
                 iter.count = iter.byte = iter.bit = 0;
                 callback(iter, udata);
             }
             index++;
-            dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+            name = _type_name(ds, CDT_TO_TYPE(index), &result);
         }
     } else { /* iterate over the members */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, type, &result);
+        this = dt == NULL ? NULL : dt->members;
+        pthread_mutex_unlock(&ds->lock);
         if(dt == NULL) {
             return result;
         }
 
-        this = dt->members;
         while(this != NULL) {
             iter.name = this->name;
             iter.type = this->type;
@@ -856,11 +887,13 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
     cdt_member *this;
     int count = 0;
 
+    pthread_mutex_lock(&ds->lock);
     dt = get_cdt_pointer(ds, type, &result);
+    this = dt == NULL ? NULL : dt->members;
+    pthread_mutex_unlock(&ds->lock);
     if(dt == NULL) {
         return result;
     }
-    this = dt->members;
     while(this != NULL) {
         count++;
         this = this->next;
@@ -874,89 +907,63 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
 /* Used to carry data around for the fqn cdt iteration callback function */
 struct _fqn_data {
     dax_state *ds;
-    cdt_iter member;
+    cdt_iter member;     /* The member that we found */
     uint8_t done;
-    int byte_position;   /* current position within the cdt in bytes*/
-    int bit_position;    /* current position within the cdt in bits*/
-    int final_byte;      /* The final position in bytes*/
-    int final_bit;       /* The final position in bits*/
-
+    uint32_t base;       /* Bit position where the cdt starts */
+    uint32_t final;      /* Bit position that we are looking for */
 };
 
 static void _fqn_callback(cdt_iter member, void *udata)
 {
-    int member_size;
+    uint32_t start, size;
     struct _fqn_data *data = (struct _fqn_data *)udata;
 
-
-    if(! data->done) { /* We use this to indicate whether we've found it or not */
-        if(member.type == DAX_BOOL) {
-            data->byte_position += member.count/8;
-            data->bit_position += member.count % 8;
-            if((data->byte_position * 8 + data->bit_position) > (data->final_byte * 8 + data->final_bit)) {
-                    /* We found it so stop looking and set the member to the struct */
-                    data->member = member;
-                    data->done = 1;
-                    /* Rewind back to before this call which would be the beginning position */
-                    data->byte_position -= member.count/8;
-                    data->bit_position -= member.count % 8;
-            }
-        } else { /* Not BOOL */
-            if(data->bit_position > 0) { /* If we have any bits left over from previous BOOLs */
-                data->bit_position = 0;
-                data->byte_position++;
-            }
-            member_size = member.count * dax_get_typesize(data->ds, member.type);
-            data->byte_position += member_size;
-            if(data->byte_position > data->final_byte) {
-                data->member = member;
-                data->done = 1;
-                data->byte_position -= member_size;
-            }
-        }
-
+    start = data->base + member.byte * 8 + member.bit;
+    if(member.type == DAX_BOOL) {
+        size = member.count;
+    } else {
+        size = member.count * dax_get_typesize(data->ds, member.type) * 8;
+    }
+    if(data->final >= start && data->final < start + size) {
+        data->member = member;
+        data->done = 1;
     }
 }
 
-static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn_data *data)
+/* Adds the name of the member of 'type' that contains the position that we are looking
+ * for to str and keeps going until we get to the type of the handle.  Returns zero if
+ * we found it */
+static int _fqn_cdt_member(dax_state *ds, char *str, tag_type type, tag_type final_type, struct _fqn_data *data)
 {
-    int i;
-    char temp[64];
+    uint32_t i = 0, size;
+    int len;
+
     data->done = 0;
     dax_cdt_iter(ds, type, data, _fqn_callback);
+    if(! data->done) return ERR_NOTFOUND;
 
+    data->base += data->member.byte * 8 + data->member.bit;
+    size = data->member.type == DAX_BOOL ? 1 : dax_get_typesize(ds, data->member.type) * 8;
+    i = (data->final - data->base) / size;
+    data->base += i * size;
+    len = strlen(str);
     if(data->member.count > 1) {
-        if(data->member.type == DAX_BOOL) {
-            i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-        } else {
-            i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
-            data->byte_position += i * dax_get_typesize(ds, data->member.type);
-        }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
+        len += snprintf(&str[len], FQN_TAG_SIZE - len, ".%s[%u]", data->member.name, i);
     } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
+        len += snprintf(&str[len], FQN_TAG_SIZE - len, ".%s", data->member.name);
     }
-    /* see if we need to go any further */
-    if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
+    if(len >= FQN_TAG_SIZE) return ERR_2BIG;
+    if(data->member.type == final_type) {
+        return data->base == data->final ? 0 : ERR_NOTFOUND;
+    } else if(IS_CUSTOM(data->member.type)) {
         /* If the found member is custom then we have to dig some more */
-        if(IS_CUSTOM(data->member.type)) {
-            /* do it again; */
-            //data->byte_position += data->member.count * dax_get_typesize(ds, data->member.type);
-            _fqn_cdt_member(ds, str, data->member.type, data);
-        } else {
-            // do some other stuff
-            /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
-               if we have any bits left */
-            if(data->member.type != DAX_BOOL) {
-                i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
-            }
-        }
+        return _fqn_cdt_member(ds, str, data->member.type, final_type, data);
+    } else if(final_type == DAX_BOOL) { /* A bit within the member */
+        len += snprintf(&str[len], FQN_TAG_SIZE - len, ".%u", data->final - data->base);
+        if(len >= FQN_TAG_SIZE) return ERR_2BIG;
+        return 0;
     }
-
+    return ERR_NOTFOUND;
 }
 
 /*!
@@ -995,8 +1002,8 @@ dax_fqn(dax_state *ds, tag_handle h) {
         }
     } else {
         ts = dax_get_typesize(ds, tag.type);
-        assert(ts != 0);
-        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count))) {
+        if(ts <= 0) return NULL;
+        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count || h.type != tag.type))) {
             i = h.byte / ts;
             snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, i);
         } else {
@@ -1008,15 +1015,13 @@ dax_fqn(dax_state *ds, tag_handle h) {
         if( IS_CUSTOM(tag.type) && h.type != tag.type) {
             struct _fqn_data data;
             data.ds = ds;
-            data.byte_position = offset;
-            data.bit_position = 0;
-            data.final_byte = h.byte;
-            data.final_bit = h.bit;
+            data.base = offset * 8;
+            data.final = h.byte * 8 + h.bit;
 
-            _fqn_cdt_member(ds, s, tag.type, &data);
+            if(_fqn_cdt_member(ds, s, tag.type, h.type, &data)) return NULL;
         } else if(h.type == DAX_BOOL) {
             snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
+            strncat(s, d, FQN_TAG_SIZE - strlen(s) - 1);
         }
     }
 
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..eff71e7 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -130,6 +130,12 @@ struct dax_state {
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
     void (*disconnect_callback)(int result);
+    int joinable;            /* The connection thread has yet to be joined */
+    int closing;             /* We are the ones that closed the connection */
+    int lost;                /* Set when the connection is gone, protected by msg_lock */
+    unsigned int stale_count;/* Responses that nobody is waiting for, protected by msg_lock */
+    int events_closed;       /* No more events will come, protected by event_lock */
+    pthread_mutex_t dispatch_lock; /* Held while an event is being dispatched */
 };
 
 #define MIN_TIMEOUT      500
@@ -153,10 +159,8 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
@@ -169,6 +173,8 @@ dax_real stom_real(dax_real);
 /* 64 bit Conversions */
 #define mtos_lword mtos_ulint
 #define stom_lword stom_ulint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_lint mtos_lint(dax_lint);
 dax_ulint mtos_ulint(dax_ulint);
@@ -197,6 +203,9 @@ int opt_lua_init_func(dax_state *);
 
 datatype *get_cdt_pointer(dax_state *, tag_type, int *);
 int add_cdt_to_cache(dax_state *, tag_type type, char *typedesc);
+void free_cdt_cache(dax_state *ds);
+void drop_connection(dax_state *ds);
+void clear_events(dax_state *ds);
 int dax_cdt_get(dax_state *ds, tag_type type, char *name);
 
 int push_event(dax_state *ds, dax_message *msg);
-- 
2.43.0


From 21e36a97188635f4bec1133470c8d550224af711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 11/41] fix: partial messages, late answers, event dispatch and
 connection teardown in the library

---
 src/lib/libevent.c | 138 +++++++++++++-------
 src/lib/libinit.c  |  39 +++++-
 src/lib/libmsg.c   | 319 ++++++++++++++++++++++++++++-----------------
 3 files changed, 325 insertions(+), 171 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..4d13be5 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -123,20 +123,43 @@ int
 del_event(dax_state *ds, dax_id id)
 {
     int n;
+    event_db event;
 
     for(n = 0; n < ds->event_count; n++) {
         if(ds->events[n].idx == id.index && ds->events[n].id == id.id) {
-            if(ds->events[n].free_callback) {
-                ds->events[n].free_callback(ds->events[n].udata);
-            }
+            event = ds->events[n];
             memmove(&ds->events[n], &ds->events[n+1], sizeof(event_db) * (ds->event_count - n-1));
             ds->event_count--;
+            if(event.free_callback) {
+                event.free_callback(event.udata);
+            }
             return 0;
         }
     }
     return ERR_NOTFOUND;
 }
 
+/* Removes all of the events and the event messages that have not been
+ * dispatched.  They are meaningless once the connection is gone */
+void
+clear_events(dax_state *ds)
+{
+    dax_id id;
+
+    pthread_mutex_lock(&ds->lock);
+    while(ds->event_count > 0) {
+        id.index = ds->events[0].idx;
+        id.id = ds->events[0].id;
+        del_event(ds, id);
+    }
+    pthread_mutex_unlock(&ds->lock);
+    pthread_mutex_lock(&ds->event_lock);
+    while(ds->emsg_queue_count > 0) {
+        free(ds->emsg_queue[--ds->emsg_queue_count]);
+    }
+    pthread_mutex_unlock(&ds->event_lock);
+}
+
 /* This function deals with a single event.
  *
  * @param ds Pointer to the dax state object
@@ -149,31 +172,43 @@ del_event(dax_state *ds, dax_id id)
 int
 dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
-    int n;
+    int n, found = 0;
     uint32_t idx, eid;
+    event_db event;
+    char *last_data;
+    int last_size;
 
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
+    /* The lock makes sure that an event that is just being added is complete */
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->event_count && !found; n ++) {
+        if(ds->events[n].idx == idx && ds->events[n].id == eid) {
+            event = ds->events[n];
+            found = 1;
+        }
+    }
+    pthread_mutex_unlock(&ds->lock);
+    if(!found) {
+        dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
+        return ERR_GENERIC;
+    }
+    if(id != NULL) {
+        id->id = eid;
+        id->index = idx;
+    }
     /* we just store the pointer to the message data in case the callback needs it
      * This data can be retrieved in the callback by dax_event_get_data() */
+    last_data = ds->event_data;
+    last_size = ds->event_data_size;
     ds->event_data = &msg->data[8];
     ds->event_data_size = msg->size-8;
-    for(n = 0; n < ds->event_count; n ++) {
-        if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
-            }
-            if(id != NULL) {
-                id->id = eid;
-                id->index = idx;
-            }
-            ds->event_data = NULL; /* This indicates that the data is out of scope now */
-            return 0;
-        }
+    if(event.callback != NULL) {
+        event.callback(ds, event.udata);
     }
-    ds->event_data = NULL; /* This indicates that the data is out of scope now */
-    dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
-    return ERR_GENERIC;
+    ds->event_data = last_data; /* This indicates that the data is out of scope now */
+    ds->event_data_size = last_size;
+    return 0;
 }
 
 static void
@@ -206,38 +241,42 @@ _pop_event(dax_state *ds, dax_message *msg) {
 int
 dax_event_wait(dax_state *ds, int timeout, dax_id *id)
 {
-    int result;
+    int result = 0;
     struct timespec ts;
-    dax_message msg;
 
-    pthread_mutex_lock(&ds->event_lock);
-    while(ds->emsg_queue_count == 0) {
+    if(timeout) {
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
-        ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        ts.tv_nsec += timeout%1000 * 1000000;
+        if(ts.tv_nsec >= 1000000000) {
             ts.tv_sec++;
-            ts.tv_nsec -= 1e9;
-        }
-        if(timeout) {
-            result = pthread_cond_timedwait(&ds->event_cond, &ds->event_lock, &ts);
-        } else {
-            result = pthread_cond_wait(&ds->event_cond, &ds->event_lock);
+            ts.tv_nsec -= 1000000000;
         }
-        if(result == ETIMEDOUT) {
+    }
+    while(1) {
+        pthread_mutex_lock(&ds->event_lock);
+        while(ds->emsg_queue_count == 0) {
+            if(ds->events_closed) {
+                result = ERR_DISCONNECTED;
+            } else if(result == ETIMEDOUT) {
+                result = ERR_TIMEOUT;
+            } else if(timeout) {
+                result = pthread_cond_timedwait(&ds->event_cond, &ds->event_lock, &ts);
+                continue;
+            } else {
+                result = pthread_cond_wait(&ds->event_cond, &ds->event_lock);
+                continue;
+            }
             pthread_mutex_unlock(&ds->event_lock);
-            return ERR_TIMEOUT;
+            return result;
         }
-        assert(result == 0);
-
+        pthread_mutex_unlock(&ds->event_lock);
+        /* We should have a message once we get here, unless another thread
+         * was faster */
+        result = dax_event_poll(ds, id);
+        if(result != ERR_NOTFOUND) return result;
+        result = 0;
     }
-    /* We should have a message once we get here */
-    /* Pop the message off of the event queue before we dispatch
-     * the event so that we can turn control back over to the connection
-     * thread. */
-    _pop_event(ds, &msg);
-    pthread_mutex_unlock(&ds->event_lock);
-    return dispatch_event(ds, &msg, id);
 }
 
 /*!
@@ -255,15 +294,24 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
 int
 dax_event_poll(dax_state *ds, dax_id *id)
 {
+    int result = ERR_NOTFOUND;
     dax_message msg;
+
+    /* Events are dispatched one at a time and in order */
+    pthread_mutex_lock(&ds->dispatch_lock);
     pthread_mutex_lock(&ds->event_lock);
     if(ds->emsg_queue_count > 0) {
+        /* Pop the message off of the event queue before we dispatch
+         * the event so that we can turn control back over to the connection
+         * thread. */
         _pop_event(ds, &msg);
         pthread_mutex_unlock(&ds->event_lock);
-        return dispatch_event(ds, &msg, id);
+        result = dispatch_event(ds, &msg, id);
+    } else {
+        pthread_mutex_unlock(&ds->event_lock);
     }
-    pthread_mutex_unlock(&ds->event_lock);
-    return ERR_NOTFOUND;
+    pthread_mutex_unlock(&ds->dispatch_lock);
+    return result;
 }
 
 /*!
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..4125cc9 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -39,6 +39,8 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t attr;
+
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -47,7 +49,10 @@ dax_init(const char *name)
     ds->attr_head = NULL;
     ds->L = NULL;
     ds->modulename = strdup(name);
-    if(ds->modulename == NULL) return NULL;
+    if(ds->modulename == NULL) {
+        free(ds);
+        return NULL;
+    }
 
     ds->msgtimeout = 0;
     ds->id = 0;
@@ -73,11 +78,31 @@ dax_init(const char *name)
     ds->event_count = 0;
     /* Event Message FIFO Queue */
     ds->emsg_queue = malloc(sizeof(dax_message *)*EVENT_QUEUE_SIZE);
+    if(ds->emsg_queue == NULL) {
+        free(ds->events);
+        free(ds->modulename);
+        free(ds);
+        return NULL;
+    }
+    ds->event_data = NULL;
+    ds->event_data_size = 0;
+    ds->error_code = 0;
+    ds->joinable = 0;
+    ds->closing = 0;
+    ds->lost = 0;
+    ds->stale_count = 0;
+    ds->events_closed = 1; /* until we are connected */
     ds->emsg_queue_size = EVENT_QUEUE_SIZE;     /* Total size of the Event Message Queue */
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
     /* Initialize locks and condition variables */
-    pthread_mutex_init(&ds->lock, NULL);
+    /* These are recursive because the library uses it's own functions and because
+     * the event callbacks are allowed to */
+    pthread_mutexattr_init(&attr);
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->lock, &attr);
+    pthread_mutex_init(&ds->dispatch_lock, &attr);
+    pthread_mutexattr_destroy(&attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
@@ -102,10 +127,16 @@ dax_init(const char *name)
 int
 dax_free(dax_state *ds)
 {
-    pthread_mutex_unlock(&ds->lock);
+    drop_connection(ds);
+    clear_events(ds);
+    free_cdt_cache(ds);
     pthread_mutex_destroy(&ds->lock);
+    pthread_mutex_destroy(&ds->dispatch_lock);
+    pthread_mutex_destroy(&ds->event_lock);
+    pthread_mutex_destroy(&ds->msg_lock);
+    pthread_cond_destroy(&ds->event_cond);
+    pthread_cond_destroy(&ds->msg_cond);
     free(ds->modulename);
-    /* TODO: gotta loop through and free the udata in the events. */
     free(ds->events);
     free(ds->emsg_queue);
     free(ds);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..325d486 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -37,73 +37,74 @@
 static int
 _message_send(dax_state *ds, int command, void *payload, size_t size)
 {
-    int result;
+    ssize_t result;
+    size_t sent = 0;
     char buff[DAX_MSGMAX];
 
     if(ds->sfd < 0) {
     	return ERR_DISCONNECTED;
     }
+    if(size > MSG_DATA_SIZE) return ERR_2BIG;
     /* We always send the size and command in network order */
     ((uint32_t *)buff)[0] = htonl(size + MSG_HDR_SIZE);
     ((uint32_t *)buff)[1] = htonl(command);
-    memcpy(&buff[MSG_HDR_SIZE], payload, size);
+    if(size) memcpy(&buff[MSG_HDR_SIZE], payload, size);
 
-    /* TODO: We need to set some kind of timeout here.  This could block
-       forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
-    if(result < 0) {
-    /* TODO: Should we handle the case when this returns due to a signal */
-        dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
-        return ERR_MSG_SEND;
+    size += MSG_HDR_SIZE;
+    while(sent < size) {
+        result = send(ds->sfd, &buff[sent], size - sent, MSG_NOSIGNAL);
+        if(result < 0) {
+            if(errno == EINTR) continue;
+            dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+            /* The server can't make sense of anything that we would send
+             * after a partial message. */
+            if(sent > 0) shutdown(ds->sfd, SHUT_RDWR);
+            return ERR_MSG_SEND;
+        }
+        sent += result;
     }
     return 0;
 }
 
-/* This function retrieves a single message from the given fd. */
+/* Reads exactly 'size' bytes from the fd.  If nothing arrives before the socket's
+ * timeout then ERR_TIMEOUT is returned unless 'wait' is set. */
 static int
-_message_get(int fd, dax_message *msg) {
-    unsigned char buff[DAX_MSGMAX];
-    int index, result;
-    index = 0;
+_read_bytes(int fd, unsigned char *buff, size_t size, int wait) {
+    size_t index = 0;
+    ssize_t result;
 
-    while( index < MSG_HDR_SIZE) {
-    	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+    while(index < size) {
+        result = read(fd, &buff[index], size - index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
-            } else {
-                return ERR_MSG_RECV;
-            }
+            if(errno == EINTR) continue;
+            if(errno != EWOULDBLOCK && errno != EAGAIN) return ERR_DISCONNECTED;
+            /* Once we have part of it we have to get the rest */
+            if(index == 0 && !wait) return ERR_TIMEOUT;
         } else if(result == 0) {
             return ERR_DISCONNECTED;
         } else {
             index += result;
         }
     }
+    return 0;
+}
+
+/* This function retrieves a single message from the given fd.  ERR_TIMEOUT
+ * means that no message was there.  All other errors are fatal for the
+ * connection. */
+static int
+_message_get(int fd, dax_message *msg) {
+    unsigned char buff[MSG_HDR_SIZE];
+    int result;
+
+    result = _read_bytes(fd, buff, MSG_HDR_SIZE, 0);
+    if(result) return result;
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    if(msg->size > MSG_DATA_SIZE) return ERR_MSG_BAD;
     /* Now we get the rest of the message */
-    index = 0;
-    while( index < msg->size) {
-    	/* Read the rest of the message */
-        result = read(fd, &buff[index], msg->size-index);
-        if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
-            } else {
-                return ERR_MSG_RECV;
-            }
-        } else if(result == 0) {
-            return ERR_DISCONNECTED;
-        } else {
-            index += result;
-        }
-    }
-    /* TODO: Use msg->data in the read functions instead of this copy */
-	memcpy(msg->data, buff, msg->size);
-    return 0;
+    return _read_bytes(fd, (unsigned char *)msg->data, msg->size, 1);
 }
 
 /* This function waits for a message with the given command to come in. If
@@ -118,22 +119,26 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
 	int result;
     struct timespec timeout;
 
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += ds->msgtimeout/1000;
+    timeout.tv_nsec += ds->msgtimeout%1000 * 1000000;
+    if(timeout.tv_nsec >= 1000000000) {
+        timeout.tv_sec++;
+        timeout.tv_nsec -= 1000000000;
+    }
     pthread_mutex_lock(&ds->msg_lock);
     while(ds->last_msg == NULL) {
-        clock_gettime(CLOCK_REALTIME, &timeout);
-        timeout.tv_sec += ds->msgtimeout/1000;
-        timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
-            timeout.tv_sec++;
-            timeout.tv_nsec-=1e9;
+        if(ds->lost) {
+            pthread_mutex_unlock(&ds->msg_lock);
+            return ERR_DISCONNECTED;
         }
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
-        if(result == ETIMEDOUT) {
+        if(result == ETIMEDOUT && ds->last_msg == NULL) {
             DF("message_recv() Timeout");
+            ds->stale_count++; /* The response may still come and has to be ignored */
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
-        assert(result == 0);
     }
     assert(ds->last_msg != NULL);
     if(ds->last_msg->msg_type == (command | MSG_ERROR)) {
@@ -144,8 +149,8 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         return result;
     }  else if(ds->last_msg->msg_type == (command | (response ? MSG_RESPONSE : 0))) {
         if(size) {
-            memcpy(payload, ds->last_msg->data, ds->last_msg->size);
-            *size = ds->last_msg->size;
+            if(ds->last_msg->size < *size) *size = ds->last_msg->size;
+            if(*size) memcpy(payload, ds->last_msg->data, *size);
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -190,11 +195,12 @@ _get_connection(dax_state *ds)
         /* fill socket address structure with our address */
         memset(&addr_un, 0, sizeof(addr_un));
         addr_un.sun_family = AF_UNIX;
-        strncpy(addr_un.sun_path, dax_get_attr(ds, "socketname"), sizeof(addr_un.sun_path));
+        strncpy(addr_un.sun_path, dax_get_attr(ds, "socketname"), sizeof(addr_un.sun_path) - 1);
 
         len = offsetof(struct sockaddr_un, sun_path) + strlen(addr_un.sun_path);
         if (connect(fd, (struct sockaddr *)&addr_un, len) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to local socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Local Server fd = %d", fd);
@@ -212,6 +218,7 @@ _get_connection(dax_state *ds)
 
         if (connect(fd, (struct sockaddr *)&addr_in, sizeof(addr_in)) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to remote socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Network Server fd = %d", fd);
@@ -221,8 +228,9 @@ _get_connection(dax_state *ds)
     tv.tv_usec = (opt_get_msgtimeout(ds) % 1000) * 1000;
 
     len = setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    len += setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
     if(len) {
-        dax_log(DAX_LOG_ERROR, "Problem setting socket timeout - s", strerror(errno));
+        dax_log(DAX_LOG_ERROR, "Problem setting socket timeout - %s", strerror(errno));
     }
     return fd;
 
@@ -261,6 +269,12 @@ _mod_register(dax_state *ds, char *name)
     if(result) {
     	return result;
     }
+    if(msg.msg_type == (MSG_MOD_REG | MSG_ERROR)) {
+        return stom_dint(*(int32_t *)&msg.data[0]);
+    }
+    if(msg.msg_type != (MSG_MOD_REG | MSG_RESPONSE) || msg.size < 30) {
+        return ERR_MSG_BAD;
+    }
 
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
@@ -319,8 +333,7 @@ _read_next_message(dax_state *ds)
     if(msg->msg_type & MSG_EVENT) { /* Events we store in the FIFO */
         pthread_mutex_lock(&ds->event_lock);
         if(ds->emsg_queue_count == ds->emsg_queue_size) {/* FIFO is full */
-            if(events_lost % 20 == 0) { /* We only log every 20 of these */
-                events_lost++;
+            if(events_lost++ % 20 == 0) { /* We only log every 20 of these */
                 dax_log(DAX_LOG_ERROR, "Event received from the server is lost.  Total = %u", events_lost);
             }
             free(ds->emsg_queue[0]); /* Free the top one */
@@ -336,27 +349,47 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->stale_count > 0) { /* Nobody is waiting for this one any more */
+            ds->stale_count--;
+            free(msg);
+        } else {
+            if(ds->last_msg != NULL) free(ds->last_msg);
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
         pthread_cond_signal(&ds->msg_cond);
     }
     return 0;
 }
 
+/* Called by the connection thread when the connection is finished */
 static void
 _connection_cleanup(dax_state *ds) {
+    /* This gets everybody that is waiting on us to return */
+    pthread_mutex_lock(&ds->msg_lock);
+    ds->lost = 1;
+    pthread_mutex_unlock(&ds->msg_lock);
+    pthread_cond_broadcast(&ds->msg_cond);
+
+    pthread_mutex_lock(&ds->lock);
+    close(ds->sfd);
     ds->sfd = -1;
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
     free_tag_cache(ds);
-    /* TODO: Free up the event FIFO too */
+    pthread_mutex_unlock(&ds->lock);
+
+    pthread_mutex_lock(&ds->event_lock);
+    ds->events_closed = 1;
+    pthread_mutex_unlock(&ds->event_lock);
+    pthread_cond_broadcast(&ds->event_cond);
 }
 
 static void *
 _connection_thread(void *arg)
 {
     int result;
-
+    void (*callback)(int result);
     dax_state *ds;
     ds = (dax_state *)arg;
 
@@ -365,32 +398,64 @@ _connection_thread(void *arg)
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
+        if(result) { /* The server doesn't know about us */
+            close(ds->sfd);
+            ds->sfd = -1;
+            ds->error_code = result;
+            pthread_barrier_wait(&ds->connect_barrier);
+            return NULL;
+        }
         init_tag_cache(ds);
+        ds->lost = 0;
+        ds->stale_count = 0;
+        ds->events_closed = 0;
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
-        /* dax_disconnect() will set this to zero to get us out of this loop */
-        while(ds->sfd >= 0) { /* Main connection loop */
+        /* dax_disconnect() will shut the socket down to get us out of this loop */
+        do { /* Main connection loop */
             result = _read_next_message(ds);
-            if(result == ERR_DISCONNECTED) {
-                if(ds->disconnect_callback) {
-                    ds->disconnect_callback(result);
-                }
-                break;
-                //_connection_cleanup(ds);
-            }
-        }
+        } while(result == 0 || result == ERR_TIMEOUT || result == ERR_ALLOC);
+        callback = ds->closing ? NULL : ds->disconnect_callback;
         _connection_cleanup(ds);
-        ds->error_code = result;
-        return NULL;
+        /* The callback may very well free ds so this has to be the last thing */
+        if(callback) callback(result);
     } else {
-        result = ds->sfd;
-        ds->error_code = result;
+        ds->error_code = ds->sfd;
         pthread_barrier_wait(&ds->connect_barrier);
     }
     return NULL;
 }
 
+/* Wait for the connection thread to finish. */
+static void
+_join_connection(dax_state *ds)
+{
+    int joinable;
+
+    pthread_mutex_lock(&ds->lock);
+    joinable = ds->joinable;
+    ds->joinable = 0;
+    pthread_mutex_unlock(&ds->lock);
+    if(joinable) {
+        if(pthread_equal(ds->connection_thread, pthread_self())) {
+            pthread_detach(ds->connection_thread);
+        } else {
+            pthread_join(ds->connection_thread, NULL);
+        }
+    }
+}
+
+/* Stop the connection without telling the server about it.  Used by dax_free() */
+void
+drop_connection(dax_state *ds)
+{
+    pthread_mutex_lock(&ds->lock);
+    ds->closing = 1;
+    if(ds->sfd >= 0) shutdown(ds->sfd, SHUT_RDWR);
+    pthread_mutex_unlock(&ds->lock);
+    _join_connection(ds);
+}
 
 /*!
  * Setup the module data structures and send registration message
@@ -405,11 +470,27 @@ dax_connect(dax_state *ds)
 {
     /* We use this barrier to stop here until we connect to the server the
      * first time. */
+    int result;
+
+    pthread_mutex_lock(&ds->lock);
+    result = ds->sfd;
+    pthread_mutex_unlock(&ds->lock);
+    if(result >= 0) return ERR_INUSE; /* We are connected already */
+    /* In case there was a connection before */
+    _join_connection(ds);
+    clear_events(ds);
+    free_cdt_cache(ds);
+
     pthread_barrier_init(&ds->connect_barrier, NULL, 2);
 
-    pthread_create(&ds->connection_thread, NULL, _connection_thread, ds);
-    pthread_detach(ds->connection_thread);
+    ds->closing = 0;
+    if(pthread_create(&ds->connection_thread, NULL, _connection_thread, ds)) {
+        pthread_barrier_destroy(&ds->connect_barrier);
+        return ERR_GENERIC;
+    }
+    ds->joinable = 1;
     pthread_barrier_wait(&ds->connect_barrier);
+    if(ds->error_code) _join_connection(ds);
 
     if(ds->error_code == 0) {
         opt_lua_init_func(ds);
@@ -429,21 +510,20 @@ dax_connect(dax_state *ds)
 int
 dax_disconnect(dax_state *ds)
 {
-    int result = -1;
+    int result;
     size_t len;
 
     pthread_mutex_lock(&ds->lock);
-    /* Tells the connection thread to exit */
-    if(ds->sfd) {
-        result = _message_send(ds, MSG_MOD_REG, NULL, 0);
-        if(! result ) {
-            len = 0;
-            result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
-        }
-        close(ds->sfd);
-        ds->sfd = 0;
+    ds->closing = 1;
+    result = _message_send(ds, MSG_MOD_REG, NULL, 0);
+    if(! result ) {
+        len = 0;
+        result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
     }
+    /* Tells the connection thread to exit */
+    if(ds->sfd >= 0) shutdown(ds->sfd, SHUT_RDWR);
     pthread_mutex_unlock(&ds->lock);
+    _join_connection(ds);
     return result;
 }
 
@@ -468,8 +548,7 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
     if(name) {
@@ -511,14 +590,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* Just in case this call modifies the tag.  The server may have given us a
+         * tag that is larger than what we asked for so we don't cache it here */
+        cache_tag_del(ds, *(tag_index *)buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
@@ -549,6 +623,7 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0 || result == ERR_DELETED) cache_tag_del(ds, index);
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
@@ -580,7 +655,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
@@ -698,10 +776,10 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -753,10 +831,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -809,10 +887,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -834,15 +912,12 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t buff[MSG_DATA_SIZE];
 
     size = handle.size;
+    if(handle.type == DAX_BOOL) size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
+    if(size > (MSG_DATA_SIZE - 12) / 2) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -873,10 +948,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
 
     memcpy(&buff[12 + size], mask, size);
     sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
-        if(newdata != NULL) free(newdata);
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -908,16 +979,13 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     uint8_t *mask = NULL;
     uint8_t buff[MSG_DATA_SIZE];
     size = handle.size;
+    if(handle.type == DAX_BOOL) size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
+    if(size > MSG_DATA_SIZE - 8) return ERR_2BIG;
 
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         bzero(mask, size);
@@ -937,9 +1005,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
 
     memcpy(&buff[8], mask, size);
     sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
@@ -975,6 +1040,7 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
     size_t size;
     uint8_t buff[MSG_DATA_SIZE];
 
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
@@ -1111,6 +1177,8 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
 
     if(data != NULL) {
         memcpy(&buff[21], data, h.size);
+    } else {
+        memset(&buff[21], 0, h.size);
     }
 
     pthread_mutex_lock(&ds->lock);
@@ -1121,10 +1189,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1199,6 +1267,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_ADD, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1251,6 +1320,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_DEL, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1260,7 +1330,7 @@ dax_event_del(dax_state *ds, dax_id id)
         }
     }
     pthread_mutex_unlock(&ds->lock);
-    return result;
+    return 0;
 }
 
 /*!
@@ -1306,6 +1376,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
@@ -1347,6 +1418,7 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
     this = cdt->members;
 
     while(this != NULL) {
+        if(dax_type_to_string(ds, this->type) == NULL) return ERR_ARG;
         size += strlen(this->name);
         size += strlen(dax_type_to_string(ds, this->type));
         snprintf(test, DAX_TAGNAME_SIZE + 1, "%d", this->count);
@@ -1428,6 +1500,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
     if(name != NULL) {
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
+        if(size > MSG_DATA_SIZE - 1) return ERR_2BIG;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
         size++; /* Add one for the sub command */
     } else {
@@ -1446,11 +1519,12 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
-    pthread_mutex_unlock(&ds->lock);
     if(result == 0) {
+        buff[MSG_DATA_SIZE - 1] = '\0'; /* Just to be safe */
         type = stom_udint(*((tag_type *)buff));
         result = add_cdt_to_cache(ds, type, &(buff[4]));
     }
+    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
@@ -1556,6 +1630,7 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
@@ -1639,7 +1714,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
     *result = 0;
     /* Sanity check the sizes.  These checks are redundant because
      * the server also does them but this will keep from sending the message */
-    if(count > TAG_GROUP_MAX_MEMBERS) {
+    if(count < 0 || count > TAG_GROUP_MAX_MEMBERS) {
         *result = ERR_ARG;
         return NULL;
     }
@@ -1688,6 +1763,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
         }
         id->handles = (tag_handle *)malloc(sizeof(tag_handle)*count);
         if(id->handles == NULL) {
+            free(id);
             pthread_mutex_unlock(&ds->lock);
             *result = ERR_ALLOC;
             return NULL;
@@ -1732,16 +1808,15 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
 
-    size = MSG_DATA_SIZE;
+    size = id->size;
     result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From 69f0315f31307a8e232369b2894fbd2a2d900b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 12/41] fix: adding an override leaves the overrides of
 neighbouring bits alone

---
 src/server/tagbase.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 29b8ab2..b9fd8b3 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1352,7 +1352,7 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size, result;
+    int tag_size, n, result;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1376,8 +1376,12 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
         bzero(_db[idx].odata, tag_size);
         bzero(_db[idx].omask, tag_size);
     }
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
+    /* Leave the other bits alone, they might be overridden too */
+    for(n=0;n<size;n++) {
+        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] |= ((uint8_t *)data)[n] & ((uint8_t *)mask)[n];
+        _db[idx].omask[n+offset] |= ((uint8_t *)mask)[n];
+    }
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
-- 
2.43.0


From 08486f11ed588802da233abf2cbbc1f61a507ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 13/41] fix: retained changes survive a power loss and stale
 rows do not block re-adding a tag

---
 src/server/retain.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 3a10b99..1ba7378 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -171,8 +171,10 @@ _init(char *filename) {
         _sql=NULL;
         return result;
     }
+    /* Without this the last change could be undone by a loss of power right after it */
+    result = sqlite3_exec(_sql, "PRAGMA synchronous=EXTRA;", NULL, 0, NULL);
     /* If it's a new file then there will be nothing to read in the tables */
-    result = _create_database_tables();
+    if(result == SQLITE_OK) result = _create_database_tables();
     /* Create the data types and tags that exist in the retention database */
     if(result == SQLITE_OK) result = _create_types();
     if(result == SQLITE_OK) result = _create_tags();
@@ -264,7 +266,8 @@ ret_add_tag(int index) {
         result = _add_type(_db[index].type);
         if(result) return result;
     }
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%u,?);",
+    /* There may be a row left if we could not delete an old tag with this name */
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES ('%s','%s',%u,?);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
-- 
2.43.0


From 6f57512c247060934392205d049cc031de0c2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 14/41] fix: report a failure to get the type's size when
 adding a tag or making a handle

---
 src/lib/libcdt.c | 2 ++
 src/lib/libmsg.c | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 2cf285f..8a0ec63 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -731,6 +731,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, tag.type);
+                if(size < 0) return size;
                 h->size = size * count;
                 h->byte = size * index;
                 h->bit = 0;
@@ -746,6 +747,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, tag.type);
+                if(size < 0) return size;
                 h->size = size * count;
                 h->byte = 0;
                 h->bit = 0;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 325d486..4fb2445 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -546,7 +546,7 @@ dax_disconnect(dax_state *ds)
 int
 dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count, uint32_t attr)
 {
-    int result;
+    int result, typesize;
     size_t size;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
@@ -587,7 +587,10 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
             if(type == DAX_BOOL) {
                 h->size = (count - 1)/8 +1;
             } else {
-                h->size = count * dax_get_typesize(ds, type);
+                /* We may have to ask the server for the type */
+                typesize = dax_get_typesize(ds, type);
+                if(typesize < 0) result = typesize;
+                else h->size = count * typesize;
             }
         }
         /* Just in case this call modifies the tag.  The server may have given us a
-- 
2.43.0


From 08efae87ce536ca476b4c44d8511a70a3c2d7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 15/41] fix: a masked map does not need to allocate memory on
 each write

---
 src/server/mapping.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index b0b215d..9c1aef6 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -148,12 +148,13 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(dest.size);
+        /* The second half is where map_check() puts the shifted data */
+        mask = (uint8_t *)malloc(dest.size * 2);
         if(mask == NULL) {
             _free_map(new_map);
             return ERR_ALLOC;
         }
-        bzero(mask, dest.size);
+        bzero(mask, dest.size * 2);
         for(uint32_t i=0; i<bits; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
@@ -262,11 +263,7 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->dest.size);
-                if(new_data == NULL) {
-                    dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
-                    return ERR_ALLOC;
-                }
+                new_data = &this->mask[this->dest.size];
                 bzero(new_data, this->dest.size);
                 bits = this->source.type == DAX_BOOL ? this->source.count : this->source.size * 8;
                 for(uint32_t n=0; n<bits; n++) {
@@ -290,7 +287,6 @@ map_check(tag_index idx, int offset, int size) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
                     map_del(this->source.index, this->id);
                 }
-                free(new_data);
             } else {
                 result = tag_write(-1, this->dest.index, this->dest.byte, srcdb, this->source.size);
                 /* If the destination tag has been deleted then delete this map */
-- 
2.43.0


From 53bb1291e84cac7c6428e9b9007a5fda657cb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 16/41] fix: comparing events of queue types are refused
 instead of asserting

---
 src/server/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index f12e65a..9504820 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -467,7 +467,7 @@ _verify_event_type(tag_type ttype, int etype)
     /* Booleans, Reals and Custom Datatypes Can't use Equal */
     if(etype == EVENT_EQUAL) {
         if(ttype == DAX_REAL || ttype == DAX_LREAL ||
-           ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
+           ttype == DAX_BOOL || (ttype & (DAX_CUSTOM | DAX_QUEUE))) {
             dax_log(DAX_LOG_ERROR, "EQUAL event not allowed for BOOL, REAL, LREAL or Custom types");
             return -1;
         } else {
@@ -480,7 +480,7 @@ _verify_event_type(tag_type ttype, int etype)
     }
     /* At this point the only ones left are < > and deadband.  All
      * except Booleans and Custom datatypes can use these */
-    if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
+    if(ttype == DAX_BOOL || (ttype & (DAX_CUSTOM | DAX_QUEUE))) {
         dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
         return -1;
     } else {
-- 
2.43.0


From 5de7219a12a54118fd284962568450d32d8dff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 17/41] fix: a group write with a deleted queue changes nothing

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index b9fd8b3..0633b01 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -814,6 +814,9 @@ tag_check_write(int fd, tag_index idx, int offset, int size) {
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    if(_db[idx].data == NULL) {
+        return ERR_DELETED;
+    }
     if(is_tag_readonly(idx) && !is_tag_owned(fd, idx)) {
         return ERR_READONLY;
     }
-- 
2.43.0


From 4011add651936b9387dc66645b85772c3732caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:17 +0000
Subject: [PATCH 18/41] fix: a type definition too long to be read back is
 refused

---
 src/server/tagbase.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 0633b01..bb8b77a 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1087,6 +1087,12 @@ cdt_create(char *str, int *error) {
     datatype *new_datatype;
     tag_type type;
 
+    /* A definition that does not fit into the answer to msg_cdt_get()
+     * could never be read by any module */
+    if(strlen(str) + 1 > MSG_DATA_SIZE - sizeof(tag_type)) {
+        if(error != NULL) *error = ERR_2BIG;
+        return 0;
+    }
     /* We need a duplicate of the string to help check if this exact
      * CDT has been added before.  In that case we don't return error */
     tmp = strdup(str);
-- 
2.43.0


From 050318313510a746f10b1d7e516e04b32e160c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 19/41] fix: the Modbus server handles split, merged and
 malformed requests

---
 src/modules/modbus/database.c |   6 +-
 src/modules/modbus/database.h |   4 +-
 src/modules/modbus/mbserver.c | 156 ++++++++++++++++++-----------
 src/modules/modbus/mbslave.c  |   4 +-
 src/modules/modbus/modbus.c   | 180 +++++++++++++++++++++++-----------
 src/modules/modbus/modbus.h   |  14 ++-
 6 files changed, 241 insertions(+), 123 deletions(-)

diff --git a/src/modules/modbus/database.c b/src/modules/modbus/database.c
index 93f72be..13309d5 100644
--- a/src/modules/modbus/database.c
+++ b/src/modules/modbus/database.c
@@ -22,7 +22,7 @@
 extern dax_state *ds;
 
 
-void
+int
 slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data)
 {
     int result;
@@ -70,10 +70,11 @@ slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *da
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
 
-void
+int
 slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data) {
     int result;
     tag_handle h;
@@ -119,5 +120,6 @@ slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *dat
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
diff --git a/src/modules/modbus/database.h b/src/modules/modbus/database.h
index 2734c8a..c47f78f 100644
--- a/src/modules/modbus/database.h
+++ b/src/modules/modbus/database.h
@@ -26,7 +26,7 @@
 #include <modopt.h>
 #include <modbus.h>
 
-void slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
-void slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
 
 #endif
diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..7408710 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -56,10 +56,17 @@ static int
 _add_connection(mb_port *port, int fd)
 {
     struct client_buffer *new;
+    struct timeval tm;
 
+    if(fd >= FD_SETSIZE) return MB_ERR_SOCKET; /* select() can't handle this one */
     new = malloc(sizeof(struct client_buffer));
     if(new == NULL) return MB_ERR_ALLOC;
 
+    /* A client that doesn't read it's responses must not block the others */
+    tm.tv_sec = 0;
+    tm.tv_usec = 500000;
+    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm));
+
     new->fd = fd;
     new->buffindex = 0;
 
@@ -75,28 +82,24 @@ _add_connection(mb_port *port, int fd)
     return 0;
 }
 
-/* Loops through the client buffer linked list of the port and sets
- * the index to 0, effectively deleting the buffers. */
-static int
-_clear_buffers(mb_port *port)
-{
-    struct client_buffer *this;
-
-    this = port->buff_head;
-
-    while(this != NULL) {
-        this->buffindex = 0;
-        this = this->next;
-    }
-    return 0;
-}
-
 static int
 _del_connection(mb_port *port, int fd)
 {
+    struct client_buffer **link, *this;
 
-    close(fd);
+    /* Take the buffer out of the list so that the next connection that
+     * gets the same file descriptor doesn't find it */
+    link = &port->buff_head;
+    while((this = *link) != NULL) {
+        if(this->fd == fd) {
+            *link = this->next;
+            free(this);
+        } else {
+            link = &this->next;
+        }
+    }
     _del_fd(port, fd);
+    close(fd);
     return 0;
 }
 
@@ -115,54 +118,93 @@ _get_buff_ptr(mb_port *port, int fd)
     return NULL;
 }
 
+/* Returns the length of the complete request at the start of the buffer,
+ * zero if there are still bytes missing and a negative error code if
+ * what we have cannot be a request */
+static int
+_request_length(mb_port *port, unsigned char *buff, int count)
+{
+    uint16_t msgsize;
+    int length;
+
+    if(count < 6) return 0;
+    COPYWORD(&msgsize, &buff[4]); /* Get the Modbus Message size */
+    if(msgsize < 2 || msgsize > MB_BUFF_SIZE - 6) return MB_ERR_OVERFLOW;
+    length = msgsize + 6;
+    if(count < length) return 0;
+    /* There are clients that don't count the whole request for these two
+     * functions, but all the data has to be there anyway. */
+    if(count >= 13 && length < 13 + buff[12] && is_write_request(port, &buff[6])) {
+        length = 13 + buff[12];
+        if(length > MB_BUFF_SIZE) return MB_ERR_OVERFLOW;
+        if(count < length) return 0;
+    }
+    return length;
+}
+
+static int
+_mb_write(int fd, unsigned char *buff, int size)
+{
+    int result, sent = 0;
+
+    while(sent < size) {
+        result = write(fd, &buff[sent], size - sent);
+        if(result > 0) {
+            sent += result;
+        } else if(result == 0 || errno != EINTR) {
+            return MB_ERR_NO_SOCKET;
+        }
+    }
+    return 0;
+}
+
+/* Reads what there is on the given socket and responds to each complete
+ * request.  If this returns an error the connection should be closed. */
 static int
 _mb_read(mb_port *port, int fd)
 {
-    int result, size;
-    unsigned char buff[100];
+    int result, length;
+    unsigned char buff[MB_BUFF_SIZE];
     struct client_buffer *cc;
     uint16_t msgsize;
 
-    size = 100;
-    result = read(fd, buff, size);
+    cc = _get_buff_ptr(port, fd);
+    assert(cc != NULL); /* If we get this far cc should exist in the port */
+
+    result = read(fd, &cc->buff[cc->buffindex], MB_BUFF_SIZE - cc->buffindex);
     if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0;
         return MB_ERR_RECV_FAIL;
     } if(result == 0) { /* EOF means the other guy is closed */
         return MB_ERR_NO_SOCKET;
     }
-
-    cc = _get_buff_ptr(port, fd);
-    assert(cc != NULL); /* If we get this far cc should exist in the port */
-
-    /* Check that we haven't received too big of a message */
-    if((result + cc->buffindex) > MB_BUFF_SIZE) {
-        return MB_ERR_OVERFLOW;
-    }
-    memcpy(&(cc->buff[cc->buffindex]), buff, result); /* Copy the new data to the buffer */
     cc->buffindex += result;
-    if(cc->buffindex > 5) {
-        COPYWORD(&msgsize, (uint16_t *)&cc->buff[4]); /* Get the Modbus Message size */
-        if(cc->buffindex >= (msgsize + 6)) {
-            if(port->in_callback) {
-                port->in_callback(port, cc->buff, cc->buffindex);
-            }
 
-            result = create_response(port, &(cc->buff[6]), MB_BUFF_SIZE - 6);
-            if(result > 0) { /* We have a response */
-                msgsize = result;
-                COPYWORD(&(cc->buff[4]), &msgsize);
-                if(port->out_callback) {
-                    port->out_callback(port, cc->buff, result + 6);
-                }
-                write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
-                dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
-                return result;
+    while((length = _request_length(port, cc->buff, cc->buffindex)) > 0) {
+        /* The response is built in place so we work on a copy and keep
+         * the rest, which is the start of the next request */
+        memcpy(buff, cc->buff, length);
+        cc->buffindex -= length;
+        memmove(cc->buff, &cc->buff[length], cc->buffindex);
+
+        if(port->in_callback) {
+            port->in_callback(port, buff, length);
+        }
+        result = create_response(port, &buff[6], length - 6, MB_BUFF_SIZE - 6);
+        if(result > 0) { /* We have a response */
+            msgsize = result;
+            COPYWORD(&buff[4], &msgsize);
+            if(port->out_callback) {
+                port->out_callback(port, buff, result + 6);
             }
+            result = _mb_write(fd, buff, result + 6);
+            if(result) return result;
+        } else if(result < 0) {
+            dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
+            return result;
         }
     }
-    return 0;
+    return length;
 }
 
 /* Open a socket to listen */
@@ -232,7 +274,6 @@ _receive(mb_port *port)
             return MB_ERR_RECV_FAIL;
         }
     } else if(result == 0) { /* Timeout */
-        _clear_buffers(port); /* this erases all of the _buffer nodes */
         return 0;
     } else {
         for(n = 0; n <= port->maxfd; n++) {
@@ -244,7 +285,10 @@ _receive(mb_port *port)
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
                     } else {
                         dax_log(DAX_LOG_MAJOR, "Accepted socket on fd %d", n);
-                        _add_connection(port, fd);
+                        if(_add_connection(port, fd)) {
+                            dax_log(DAX_LOG_ERROR, "Unable to handle socket on fd %d", fd);
+                            close(fd);
+                        }
                     }
                 } else {
                     result = _mb_read(port, n);
@@ -252,7 +296,9 @@ _receive(mb_port *port)
                         dax_log(DAX_LOG_MAJOR, "Disconnected socket on fd %d", n);
                         _del_connection(port, n);
                     } else if(result < 0) {
-                        return result; /* Pass the error up */
+                        /* This is only a problem of this one client */
+                        dax_log(DAX_LOG_ERROR, "Closing socket on fd %d because of error %d", n, result);
+                        _del_connection(port, n);
                     }
                 }
             }
@@ -277,11 +323,7 @@ server_loop(mb_port *port)
     while(1) {
         result = _receive(port);
         if(result) {
-            if(result == MB_ERR_OVERFLOW) {
-                dax_log(DAX_LOG_ERROR, "Buffer Overflow Attempt");
-            } else {
-                return result;
-            }
+            return result;
         }
     }
     return -1; /* Can never get here */
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..1fe4709 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -80,9 +80,9 @@ _mb_read(mb_port *port, int fd)
         }
 
         /* Check the checksum here. */
-        result = crc16check(buff, buffindex);
+        result = buffindex >= 4 && crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            result = create_response(port, buff, buffindex - 2, MB_BUFF_SIZE - 2);
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..779d123 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -44,7 +44,7 @@ timediff(struct timeval oldtime,struct timeval newtime)
 int
 mb_run_port(struct mb_port *m_port)
 {
-    int result;
+    int result = 0;
 
     while(1) {
         /* If the port is not already open */
@@ -755,6 +755,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
 {
     int n, bit, word, buffbit, buffbyte;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150];
 
@@ -762,19 +763,25 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->coil_idx;
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->disc_idx;
         regsize = port->nodes[nodeid]->disc_size;
     }
 
+    if(count == 0 || count > MB_MAX_READ_BITS) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
     if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_FAILURE);
+    }
     buff[2] = (count - 1)/8+1;
 
     bit = 0;
@@ -805,6 +812,7 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
 {
     int n;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150]; /* This is where we will store the data */
 
@@ -812,19 +820,25 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->hold_idx;
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->input_idx;
         regsize = port->nodes[nodeid]->input_size;
     }
 
+    if(count == 0 || count > MB_MAX_READ_WORDS) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
     if((count * 2) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_FAILURE);
+    }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
         COPYWORD(&buff[3+(n*2)], &reg[n]);
@@ -864,50 +878,97 @@ _check_function_code_exception(mb_port *port, int nodeid, uint8_t function) {
     return ME_WRONG_FUNCTION;
 }
 
+/* Returns the node that answers the requests that are sent to the given
+ * node or -1 if we are not supposed to answer */
+static int
+_find_node(mb_port *port, uint8_t nodeid)
+{
+    if(port->nodes[nodeid] != NULL) return nodeid;
+    if(port->nodes[0] != NULL) return 0; /* We use node 0 as the default */
+    return -1;
+}
+
+/* Returns non zero if buff, which has to have at least 7 bytes, is the start of
+ * a write multiple coils or registers request that we can carry out once
+ * we have all of the data. */
+int
+is_write_request(mb_port *port, unsigned char *buff)
+{
+    int node;
+    uint16_t index, count;
+
+    node = _find_node(port, buff[0]);
+    if(node < 0) return 0;
+    COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
+    COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+    if(buff[1] == 15) {
+        return count > 0 && count <= MB_MAX_WRITE_BITS && buff[6] == (count - 1)/8 + 1 &&
+               index + count <= port->nodes[node]->coil_size;
+    }
+    if(buff[1] == 16) {
+        return count > 0 && count <= MB_MAX_WRITE_WORDS && buff[6] == count * 2 &&
+               index + count <= port->nodes[node]->hold_size;
+    }
+    return 0;
+}
+
+/* The Lua callbacks of all the ports share one Lua state */
+static pthread_mutex_t lua_lock = PTHREAD_MUTEX_INITIALIZER;
+
+/* Calls one of the Lua callback functions.  The return value is what the
+ * function returns or zero if there was an error */
+static int
+_run_callback(mb_port *port, int callback, int node, int function, int index, int count)
+{
+    lua_State *L;
+    int result = 0;
+
+    pthread_mutex_lock(&lua_lock);
+    L = dax_get_luastate(ds);
+
+    lua_settop(L, 0); /* Delete the stack */
+    /* Get the filter function from the registry and push it onto the stack */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, callback);
+    lua_pushinteger(L, node);     /* First argument is the node number */
+    lua_pushinteger(L, function); /* Second argument is the function code */
+    lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
+    lua_pushinteger(L, count); /* fourth argument is the count */
+    if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
+        dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
+    } else { /* Success */
+        result = lua_tointeger(L, -1);
+    }
+    pthread_mutex_unlock(&lua_lock);
+    return result;
+}
+
 /* Creates a generic slave response.  buff should point to a buffer that
- * looks like an RTU request without the checksum.  This function will generate
+ * looks like an RTU request without the checksum and is length bytes long.  This function will generate
  * an RTU response message, and write that back into buff.  size is the total
  * size that we can write into buff.  Returns positive number of bytes written, zero
  * if no bytes written and negative error code if there is a problem. */
 int
-create_response(mb_port *port, unsigned char *buff, int size)
+create_response(mb_port *port, unsigned char *buff, int length, int size)
 {
-    uint8_t node, function;
+    uint8_t function;
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
-    int word, bit, n;
-    int8_t result, retval;
-    lua_State *L;
+    int node, word, bit, n;
+    int result = 0, retval = 0;
 
-    node = buff[0]; /* Node Number */
+    if(length < 2) return 0;
     function = buff[1]; /* Modbus Function Code */
 
-    if(port->nodes[node] == NULL) { /* No configuration for this node */
-        if(port->nodes[0] != NULL) { /* We use node 0 as the default */
-            node = 0;
-        } else {
-            return 0; /* Otherwise we ignore */
-        }
+    node = _find_node(port, buff[0]);
+    if(node < 0) { /* No configuration for this node */
+        return 0; /* We ignore it */
     }
 
-    if(port->nodes[node]->read_callback != LUA_REFNIL) {
+    if(port->nodes[node]->read_callback != LUA_REFNIL && length >= 6) {
         if(function == 1 || function == 2 || function == 3 || function == 4)  {
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->read_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            lua_pushinteger(L, count); /* fourth argument is the count */
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
-            }
+            result = _run_callback(port, port->nodes[node]->read_callback, node, function, index, count);
         }
     }
     /* If the Lua callback function returns a non-zero integer then create an
@@ -918,6 +979,12 @@ create_response(mb_port *port, unsigned char *buff, int size)
     if(_check_function_code_exception(port, node, function)) {
         return _create_exception(buff, ME_WRONG_FUNCTION);
     }
+    if(function == 8) { /* Diagnostics, we simply return the request */
+        return MIN(length, size);
+    }
+    if(length < 6) { /* All the others have an address and a value or a count */
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
 
     switch(function) {
         case 1: /* Read Coils */
@@ -939,7 +1006,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
             } else {
                 data[0] = 0x00;
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data)) {
+                return _create_exception(buff, ME_FAILURE);
+            }
             retval = 6;
             break;
         case 6: /* Write Single Register */
@@ -949,17 +1018,20 @@ create_response(mb_port *port, unsigned char *buff, int size)
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
             data[0] = value;
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data)) {
+                return _create_exception(buff, ME_FAILURE);
+            }
             retval = 6;
             break;
-        case 8:
-            return size / 2;
         case 15: /* Write Multiple Coils */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
             if((index + count) > port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(count == 0 || count > MB_MAX_WRITE_BITS || length < 7 + (count - 1)/8 + 1 || buff[6] != (count - 1)/8 + 1) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             word = 0;
             bit = 0;
             for(n = 0; n < count; n++) {
@@ -971,7 +1043,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
                 bit++;
                 if(bit == 16) { bit = 0; word++; }
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data)) {
+                return _create_exception(buff, ME_FAILURE);
+            }
             retval = 6;
             break;
         case 16: /* Write Multiple Registers */
@@ -980,10 +1054,15 @@ create_response(mb_port *port, unsigned char *buff, int size)
             if((index + count) > port->nodes[node]->hold_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(count == 0 || count > MB_MAX_WRITE_WORDS || length < 7 + count * 2 || buff[6] != count * 2) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data)) {
+                return _create_exception(buff, ME_FAILURE);
+            }
             retval = 6;
             break;
         default:
@@ -992,25 +1071,10 @@ create_response(mb_port *port, unsigned char *buff, int size)
 
     /* We should only get this far if we have had a successful write response created*/
     if(port->nodes[node]->write_callback != LUA_REFNIL) {
-        if(function == 5 || function == 6 || function == 15 || function == 16)  {
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->write_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            if(function == 5 || function == 6) {
-                lua_pushinteger(L, 1); /* fourth argument is the count for fc 5&6 it's going to be 1*/
-            } else {
-                lua_pushinteger(L, count); /* fourth argument is the count */
-            }
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
-            }
+        if(function == 5 || function == 6) { /* the count for these is always 1 */
+            result = _run_callback(port, port->nodes[node]->write_callback, node, function, index, 1);
+        } else if(function == 15 || function == 16) {
+            result = _run_callback(port, port->nodes[node]->write_callback, node, function, index, count);
         }
     }
     /* If the write Lua callback returns non-zero then we create an exception for that
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 588e2c1..8d7a866 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -99,6 +99,15 @@
 #define ME_WRONG_DEVICE   3
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
+/* These are only used for the exceptions that a slave or server sends */
+#define ME_BAD_VALUE      3
+#define ME_FAILURE        4
+
+/* The largest counts that fit into a Modbus message */
+#define MB_MAX_READ_BITS   2000
+#define MB_MAX_READ_WORDS  125
+#define MB_MAX_WRITE_BITS  1968
+#define MB_MAX_WRITE_WORDS 123
 
 /* Command Methods */
 #define MB_CONTINUOUS  0x01   /* Command is sent periodically */
@@ -148,7 +157,7 @@
 /* Number of slave nodes allocated */
 #define MB_MAX_SLAVE_NODES 248
 /* Maximum size of the receive buffer */
-#define MB_BUFF_SIZE 256
+#define MB_BUFF_SIZE 260
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
@@ -336,7 +345,8 @@ int server_loop(mb_port *port);
 int slave_loop(mb_port *port);
 
 /* Protocol Functions - defined in modbus.c */
-int create_response(mb_port * port, unsigned char *buff, int size);
+int is_write_request(mb_port *port, unsigned char *buff);
+int create_response(mb_port * port, unsigned char *buff, int length, int size);
 
 /* Utility Functions - defined in modutil.c */
 uint16_t crc16(unsigned char *msg, unsigned short length);
-- 
2.43.0


From 8be8b594da173ef988223f0ccfcc42eb97865425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:49 +0000
Subject: [PATCH 20/41] fix: the unused bits in a Modbus response are zero

---
 src/modules/modbus/modbus.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 779d123..5ed9912 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -783,6 +783,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
         return _create_exception(buff, ME_FAILURE);
     }
     buff[2] = (count - 1)/8+1;
+    buff[3 + (count - 1)/8] = 0; /* The bits that we don't use have to be zero */
 
     bit = 0;
     word = 0;
-- 
2.43.0


From c28aa6d5f0ac9267263307df32db285239e4614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 21/41] fix: the master loses no dead process and restarts it
 on time

More than ten processes dying at once overflowed the dead process queue and
were lost, a failed fork() was not tried again, setting the clock back delayed
restarts, a process that was gone was signalled as pid 0 when it had exceeded
its memory limit, and the argument list was not terminated without arguments.
---
 src/master/master.c      | 14 ++----
 src/master/mstr_config.c |  4 +-
 src/master/process.c     | 94 +++++++++++++++++++++-------------------
 src/master/process.h     |  6 ---
 4 files changed, 56 insertions(+), 62 deletions(-)

diff --git a/src/master/master.c b/src/master/master.c
index 0c418ac..aad528c 100644
--- a/src/master/master.c
+++ b/src/master/master.c
@@ -24,7 +24,6 @@
 #include <common.h>
 #include <syslog.h>
 #include <signal.h>
-#include <sys/wait.h>
 #include <opendax.h>
 
 static int quitflag = 0;
@@ -116,17 +115,10 @@ catch_signal(int sig)
 }
 
 
-/* Clean up any child modules that have shut down */
+/* The processes that have died are cleaned up by process_scan(), all that has
+ * to be done here is to interrupt the sleep in the main loop. */
 void
 child_signal(int sig)
 {
-    int status;
-    pid_t pid;
-
-    do {
-        pid = waitpid(-1, &status, WNOHANG);
-        if(pid > 0) {
-            process_dpq_add(pid, status);
-        }
-    } while(pid > 0);
+    ;
 }
diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index e135581..ac94d17 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -212,7 +212,9 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "env");
-    proc->env = (char *)lua_tostring(L, -1);
+    if(! lua_isnil(L, -1)) {
+        proc->env = strdup((char *)lua_tostring(L, -1));
+    }
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "delay");
diff --git a/src/master/process.c b/src/master/process.c
index 0ee7746..15bece7 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -23,16 +23,10 @@
 #include <common.h>
 #include <opendax.h>
 #include <sys/time.h>
+#include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
 
-/* This array is the dead process list.
-   TODO: This should be improved to allow it to grow when needed.
-*/
-#ifndef DPQ_SIZE
-  #define DPQ_SIZE 10
-#endif
-static dead_process _dpq[DPQ_SIZE];
 static dax_process *_process_list = NULL;
 
 #ifdef HAVE_PROCDIR
@@ -49,6 +43,18 @@ process_init(void) {
 }
 #endif
 
+/* The times at which processes start and die are taken from the monotonic
+ * clock, so that setting the system's clock changes no restart delay */
+static void
+_get_time(struct timeval *tv)
+{
+    struct timespec ts;
+
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    tv->tv_sec = ts.tv_sec;
+    tv->tv_usec = ts.tv_nsec / 1000;
+}
+
 /* Return the difference between the two times in mSec */
 static long
 _difftimeval(struct timeval *start, struct timeval *end)
@@ -105,10 +111,10 @@ _arglist_tok(char *path, char *str)
             arr[index++] = strdup(token); /* TODO: ERROR CHECK THIS */
             token = strtok_r(NULL, " ", &save);
         }
-        arr[index] = NULL;
 
         free(temp);
     }
+    arr[index] = NULL;
     return arr;
 }
 
@@ -118,11 +124,12 @@ process_add(char *name, char *path, char *arglist, unsigned int flags)
     dax_process *new, *this;
     dax_log(DAX_LOG_DEBUG,"Adding process %s to configuration",name);
 
-    new = malloc(sizeof(dax_process));
+    new = calloc(1, sizeof(dax_process));
     if(new) {
         new->fd = 0;
         new->efd = 0;
         new->pid = 0;
+        new->flags = flags;
 
         /* Add the module path to the struct */
         if(path) {
@@ -228,9 +235,11 @@ process_start_all(void)
             while(result) {
                 timeout = rem;
                 result = nanosleep(&timeout, &rem);
-                if(errno == EFAULT)
-                    dax_log(DAX_LOG_FATAL, "Serious problem with nanosleep in function process_start_all()");
-                assert(errno != EINVAL);
+                /* Only an interrupted sleep leaves us something to wait for */
+                if(result && errno != EINTR) {
+                    dax_log(DAX_LOG_ERROR, "Unable to wait for process %s - %s", this->name, strerror(errno));
+                    break;
+                }
             }
         }
         this = this->next;
@@ -278,7 +287,7 @@ process_start(dax_process *proc)
             proc->exit_status = 0;
 
             dax_log(DAX_LOG_MAJOR, "Starting Process - %s - %d",proc->path,child_pid);
-            gettimeofday(&proc->starttime, NULL);
+            _get_time(&proc->starttime);
             proc->state = PSTATE_STARTED;
             return child_pid;
         } else if(child_pid == 0) { /* Child */
@@ -291,6 +300,11 @@ process_start(dax_process *proc)
             }
         } else { /* Error on the fork */
             dax_log(DAX_LOG_ERROR, "process_start fork failed - %s - %s", proc->path, strerror(errno));
+            /* This is the same as if it had died right away, so if it is
+             * supposed to be restarted then process_scan() tries again. */
+            _get_time(&proc->starttime);
+            proc->deadtime = proc->starttime;
+            proc->state = PSTATE_DEAD;
         }
     } else {
         return 0;
@@ -329,9 +343,11 @@ _cleanup_process(pid_t pid, int status)
         proc->pid = 0;
         proc->last_etime = 0;
         proc->last_ptime = 0;
+        proc->pcpu = 0.0;
+        proc->rss = 0;
         proc->exit_status = status;
         proc->state = PSTATE_DEAD;
-        gettimeofday(&proc->deadtime, NULL);
+        _get_time(&proc->deadtime);
         return 0;
     } else {
         dax_log(DAX_LOG_ERROR, "Process %d not found for cleanup", pid);
@@ -349,7 +365,8 @@ _process_get_cpu_stat(dax_process *proc)
     FILE *f;
     char filename[128];
     char line[1024];
-    int pid, result;
+    char *fields;
+    int result;
     unsigned long utime, stime, ptime, etime, times[4];
     long rss;
 
@@ -359,10 +376,15 @@ _process_get_cpu_stat(dax_process *proc)
         dax_log(DAX_LOG_ERROR, "Unable to open file %s", filename);
         return errno;
     }
-    result = fscanf(f, "%d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &pid, &utime, &stime, &rss);
-    if(result < 4) return -1;
-    ptime = utime + stime;
+    fields = fgets(line, 1024, f);
     fclose(f);
+    /* The second field is the name of the program, which might contain spaces,
+     * in parentheses.  We need what comes after that */
+    if(fields != NULL) fields = strrchr(line, ')');
+    if(fields == NULL) return -1;
+    result = sscanf(fields, ") %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &utime, &stime, &rss);
+    if(result < 3) return -1;
+    ptime = utime + stime;
     /* Now read and parse the cpu stat file */
     f = fopen("/proc/stat", "r");
     if(f == NULL) {
@@ -422,18 +444,16 @@ _process_restart(dax_process *proc)
 int
 process_scan(void)
 {
-    int n, restart, interval;
+    int restart, interval, status;
+    pid_t pid;
     long runtime;
     dax_process *this;
     struct timeval now;
     static unsigned int count;
 
-    /* Check the dead module queue for pid's that need cleaning */
-    for(n = 0; n < DPQ_SIZE; n++) {
-        if(_dpq[n].pid != 0) {
-            _cleanup_process(_dpq[n].pid, _dpq[n].status);
-            _dpq[n].pid = 0;
-        }
+    /* Clean up after every process that has died since the last time */
+    while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
+        _cleanup_process(pid, status);
     }
 
     this = _process_list;
@@ -441,19 +461,19 @@ process_scan(void)
     while(this != NULL) {
         /* See if the process needs restarting. */
         if((this->flags & PFLAG_RESTART) && this->state == PSTATE_DEAD ) {
-            gettimeofday(&now, NULL);
+            _get_time(&now);
             runtime = _difftimeval(&this->starttime, &this->deadtime);
             if(runtime > 60000) this->restartdelay = 0;
             /* interval is how long it's been since the process died */
             interval = _difftimeval(&this->deadtime, &now);
-            if(interval > this->restartdelay) {
+            if(interval >= this->restartdelay) {
                 _process_restart(this);
             } else {
                 if((this->restartdelay - interval) < restart) {
                     restart = this->restartdelay - interval;
                 }
             }
-        } else {
+        } else if(this->pid > 0) {
             /* approximately every minute we'll get cpu stats and deal with
              * the processes that misbehave.  We add the pid so that we don't
              * do every process in the same scan */
@@ -498,33 +518,19 @@ process_stop(dax_process *proc)
     return 0;
 }
 
-/* Adds the dead module to the first blank spot in the list.  If the list
-   is overflowed then it'll just overwrite the last one.
-   TODO: If more than DMQ_SIZE modules dies all at once this will cause
-         problems.  Should be fixed. */
-void
-process_dpq_add(pid_t pid, int status)
-{
-    int n = 0;
-    while(_dpq[n].pid != 0 && n < DPQ_SIZE) {
-        n++;
-    }
-    _dpq[n].pid = pid;
-    _dpq[n].status = status;
-}
-
 void
 _print_process_list(void)
 {
     dax_process *this;
     this = _process_list;
     char **args;
-    int n = 0;
+    int n;
 
     while(this != NULL) {
         printf("Process %s\n", this->name);
         printf("  path    = %s\n", this->path);
         args = this->arglist;
+        n = 0;
         while(args[n] != NULL) {
             printf("  arg[%d]    = %s\n", n, args[n]);
             n++;
diff --git a/src/master/process.h b/src/master/process.h
index 7bb1f4e..c8cb09b 100644
--- a/src/master/process.h
+++ b/src/master/process.h
@@ -77,16 +77,10 @@ typedef struct dax_process {
     struct dax_process *next;
 } dax_process;
 
-typedef struct {
-    pid_t pid;
-    int status;
-} dead_process;
-
 void process_init(void);
 void process_start_all(void);
 pid_t process_start(dax_process *);
 int process_scan(void);
-void process_dpq_add(pid_t, int);
 dax_process *process_add(char *name, char *path, char *arglist, unsigned int flags);
 void _print_process_list(void);
 
-- 
2.43.0


From be89b858e82a3155e7ec6d90c14abca9010744fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 22/41] fix: the master sets a process' group before its user

---
 src/master/process.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index 15bece7..8a46800 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -256,13 +256,8 @@ _set_user_group(dax_process *proc)
     uid = geteuid();
     gid = getegid();
 
-    if(proc->uid >= 0 && proc->uid != uid) {
-        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
-        result = setuid(proc->uid);
-        if(result) {
-            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
-        }
-    }
+    /* The group has to be first, because we might not be allowed to
+     * change it once we have changed the user */
     if(proc->gid >= 0 && proc->gid != gid) {
         dax_log(DAX_LOG_MINOR, "Changing group id to %d process %s", proc->gid, proc->name);
         result = setgid(proc->gid);
@@ -270,6 +265,13 @@ _set_user_group(dax_process *proc)
             dax_log(DAX_LOG_ERROR, "Unable to set gid %d - %s", proc->gid, strerror(errno));
         }
     }
+    if(proc->uid >= 0 && proc->uid != uid) {
+        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
+        result = setuid(proc->uid);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+        }
+    }
 }
 
 /* This function is used to start a module */
-- 
2.43.0


From 1a091ed0181999e6ffc516fd55dbba04ebf6e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 23/41] fix: the library's time limits do not depend on the
 time of day

Setting the clock while a request was waiting for its answer or while
dax_event_wait() was waiting made them report a timeout at once or not return
until the clock had caught up.
---
 src/lib/libevent.c | 2 +-
 src/lib/libinit.c  | 9 +++++++--
 src/lib/libmsg.c   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 4d13be5..535110d 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -245,7 +245,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
     struct timespec ts;
 
     if(timeout) {
-        clock_gettime(CLOCK_REALTIME, &ts);
+        clock_gettime(CLOCK_MONOTONIC, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1000000;
         if(ts.tv_nsec >= 1000000000) {
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 4125cc9..ad4b2e5 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -40,6 +40,7 @@ dax_init(const char *name)
 {
     dax_state *ds;
     pthread_mutexattr_t attr;
+    pthread_condattr_t cattr;
 
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
@@ -105,8 +106,12 @@ dax_init(const char *name)
     pthread_mutexattr_destroy(&attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
-    pthread_cond_init(&ds->event_cond, NULL);
-    pthread_cond_init(&ds->msg_cond, NULL);
+    /* The time limits must not depend on somebody setting the clock */
+    pthread_condattr_init(&cattr);
+    pthread_condattr_setclock(&cattr, CLOCK_MONOTONIC);
+    pthread_cond_init(&ds->event_cond, &cattr);
+    pthread_cond_init(&ds->msg_cond, &cattr);
+    pthread_condattr_destroy(&cattr);
 
     init_config(ds);
 
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 4fb2445..9c5c8ee 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -119,7 +119,7 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
 	int result;
     struct timespec timeout;
 
-    clock_gettime(CLOCK_REALTIME, &timeout);
+    clock_gettime(CLOCK_MONOTONIC, &timeout);
     timeout.tv_sec += ds->msgtimeout/1000;
     timeout.tv_nsec += ds->msgtimeout%1000 * 1000000;
     if(timeout.tv_nsec >= 1000000000) {
-- 
2.43.0


From 6b9bff3fd57f847d361efb2dc30aa0c81a6091ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 24/41] fix: a Modbus port without retries keeps its timeout

---
 src/modules/modbus/modopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/modbus/modopt.c b/src/modules/modbus/modopt.c
index 44db5bf..c60042d 100644
--- a/src/modules/modbus/modopt.c
+++ b/src/modules/modbus/modopt.c
@@ -286,7 +286,7 @@ _add_port(lua_State *L)
 
     lua_getfield(L, -1, "retries");
     p->retries = (unsigned int)lua_tonumber(L, -1);
-    if(p->retries == 0) p->timeout = 1;
+    if(p->retries == 0) p->retries = 1;
     if(p->retries > MAX_RETRIES) p->retries = MAX_RETRIES;
     lua_pop(L, 1);
 
-- 
2.43.0


From 8bc17a92a84a68b46a57ac0d6a5becadc9bca4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 25/41] fix: a Modbus port goes on with its period when the
 clock is set back

---
 src/modules/modbus/modbus.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 5ed9912..13a61ed 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -134,8 +134,12 @@ client_loop(mb_port *mp)
            for the right amount of time.  */
         gettimeofday(&end, NULL);
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
+        if(time_spent < 0) time_spent = 0; /* Somebody set the clock */
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
+            /* The lock is so that we don't take the connection away from a command
+             * that is being sent by an event */
+            pthread_mutex_lock(&mp->send_lock);
             if(!mp->persist) {
                 mb_close_port(mp);
             }
@@ -208,6 +212,7 @@ master_loop(mb_port *mp)
            for the right amount of time.  */
         gettimeofday(&end, NULL);
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
+        if(time_spent < 0) time_spent = 0; /* Somebody set the clock */
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
             if(!mp->persist) {
-- 
2.43.0


From 21006233d47b6df2f442aa08b2051ab180a6dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 26/41] fix: the Modbus TCP client only takes complete answers
 to its own requests

---
 src/modules/modbus/modbus.c | 167 +++++++++++++++++++++++++-----------
 src/modules/modbus/modbus.h |   2 +
 2 files changed, 121 insertions(+), 48 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 13a61ed..2f3ff6c 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -400,6 +400,24 @@ getASCIIresponse(uint8_t *buff, mb_port *mp)
 
 static uint16_t _req_tid;
 
+/* Sends the whole message to the file descriptor.  Returns the number of
+ * bytes on success and -1 if not everything could be sent */
+static int
+_send_all(int fd, uint8_t *buff, int length)
+{
+    int result, sent = 0;
+
+    while(sent < length) {
+        result = write(fd, &buff[sent], length - sent);
+        if(result > 0) {
+            sent += result;
+        } else if(result == 0 || errno != EINTR) {
+            return -1;
+        }
+    }
+    return sent;
+}
+
 /* This function formulates and sends the Modbus TCP client request */
 static int
 sendTCPrequest(mb_port *mp, mb_cmd *cmd)
@@ -409,8 +427,9 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 
     /* build the request message */
     /* MBAP Header minus the length.  We'll set it later */
-    buff[0] = _req_tid>>8;  /* Transaction ID */
-    buff[1] = _req_tid++;   /* Transaction ID */
+    mp->tid = _req_tid++;
+    buff[0] = mp->tid>>8;  /* Transaction ID */
+    buff[1] = mp->tid;     /* Transaction ID */
     buff[2] = 0x00;  /* Protocol ID */
     buff[3] = 0x00;  /* Protocol ID */
     /* Modbus RTU PDU */
@@ -432,7 +451,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 if(temp) buff[10] = 0xff;
                 else     buff[10] = 0x00;
-                buff[5] = 0x00;
+                buff[11] = 0x00;
                 cmd->firstrun = 1;
                 cmd->lastcrc = temp;
                 length = 6;
@@ -498,7 +517,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
             }
         /* TODO: Add the rest of the function codes */
         default:
-            break;
+            return -1;
     }
     /* Go back and put the length in the MBAP Header */
     COPYWORD(&buff[4], &length);
@@ -510,50 +529,83 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
         mp->out_callback(mp, buff, length + 6);
     }
 
-    return write(mp->fd, buff, length + 6);
+    return _send_all(mp->fd, buff, length + 6);
+}
+
+/* Returns the number of milliseconds on a clock that nobody sets */
+static long long
+_mstime(void)
+{
+    struct timespec ts;
+
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return (long long)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
 }
 
 /*
- * This function immediately tries to read data from the file handle.
+ * This function reads from the connection until it has the whole answer to the
+ * last request that was sent.  Answers to other requests, those that came too
+ * late for example, are thrown away.
 
  * Returns 0 on timeout
  * Returns the length of the message on success
+ * Returns MB_ERR_RECV_FAIL if the connection can't be used anymore
  */
 static int
 getTCPresponse(uint8_t *buff, mb_port *mp)
 {
-    uint8_t tempbuff[MB_FRAME_LEN];
+    uint8_t tempbuff[MB_BUFF_SIZE];
     struct timeval timeout;
-    int result;
-    fd_set readfs, errfs;
-
-
-    timeout.tv_usec = (mp->timeout % 1000) * 1000;
-    timeout.tv_sec = mp->timeout / 1000;
-    FD_ZERO(&readfs);
-    FD_SET(mp->fd, &readfs);
-    FD_ZERO(&errfs);
-    FD_SET(mp->fd, &errfs);
-    result = select(mp->fd+1, &readfs, NULL, &errfs, &timeout);
-    if(FD_ISSET(mp->fd, &readfs)) {
-        /* TODO Can we really assume that we'll get the whole thing in one read() */
-        result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
-    }
-    if(result > 0) { /* Is there any data in buffer? */
-        if(mp->in_callback) {
-            mp->in_callback(mp, tempbuff, result);
+    long long end, left;
+    int result, have = 0, want;
+    fd_set readfs;
+
+    end = _mstime() + mp->timeout;
+    while(1) {
+        /* First we need the header and the length in there tells us about the rest */
+        want = 6;
+        if(have >= 6) {
+            want = 6 + tempbuff[4] * 256 + tempbuff[5];
+            /* If this isn't the beginning of a message there is no way to find the next one */
+            if(tempbuff[2] != 0 || tempbuff[3] != 0 || want < 9 || want > MB_BUFF_SIZE) {
+                return MB_ERR_RECV_FAIL;
+            }
+            if(have == want) {
+                if(mp->in_callback) {
+                    mp->in_callback(mp, tempbuff, have);
+                }
+                if(tempbuff[0] * 256 + tempbuff[1] == mp->tid) {
+                    /* We have to convert the TCP message to it's RTU equivalent,
+                     * because that is what the calling function is expecting. */
+                    memcpy(buff, &tempbuff[6], have - 6);
+                    return have - 6;
+                }
+                have = 0; /* Not our answer so start over */
+                continue;
+            }
+        }
+        left = end - _mstime();
+        if(left <= 0) {
+            /* The rest of the message would be taken for the next one */
+            return have ? MB_ERR_RECV_FAIL : 0;
+        }
+        timeout.tv_sec = left / 1000;
+        timeout.tv_usec = (left % 1000) * 1000;
+        FD_ZERO(&readfs);
+        FD_SET(mp->fd, &readfs);
+        result = select(mp->fd+1, &readfs, NULL, NULL, &timeout);
+        if(result < 0 && errno != EINTR) return MB_ERR_RECV_FAIL;
+        if(result > 0) {
+            result = read(mp->fd, &tempbuff[have], want - have);
+            if(result > 0) {
+                have += result;
+            } else if(result == 0 || (errno != EINTR && errno != EAGAIN)) {
+                return MB_ERR_RECV_FAIL;
+            }
         }
-        /* We have to convert the TCP message to it's RTU equivalent,
-         * because that is what the calling function is expecting. */
-        result -= 6;
-        memcpy(buff, &tempbuff[6], result);
     }
-    return result;
 }
 
-
-
-
 /*!
  * This function takes the message buffer and the current command and
  * determines what to do with the message.  It may write data to the
@@ -563,37 +615,56 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
  * like an RTU message so the ASCII & TCP response functions should translate
  * the their responses into RTUish messages
  */
-/* TODO: There is all kinds of buffer overflow potential here.  It should all be checked */
 static int
-handleresponse(uint8_t *buff, mb_cmd *cmd)
+handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
 {
-    int n;
+    int n, size;
 
-    cmd->responses++;
-    if(buff[1] >= 0x80)
-        return buff[2];
+    if(length < 3)
+        return ME_WRONG_FUNCTION;
     if(buff[0] != cmd->node)
         return ME_WRONG_DEVICE;
+    if(buff[1] == (cmd->function | ME_EXCEPTION)) {
+        cmd->responses++;
+        return buff[2];
+    }
     if(buff[1] != cmd->function)
         return ME_WRONG_FUNCTION;
+    switch (cmd->function) {
+        case 1:
+        case 2:
+            size = (cmd->length - 1) / 8 + 1;
+            break;
+        case 3:
+        case 4:
+            size = cmd->length * 2;
+            break;
+        default:
+            size = 0;
+            break;
+    }
+    if(size) {
+        /* The message has to have the data that we asked for, not more and not less */
+        if(buff[2] != size || length < size + 3 || size > cmd->datasize)
+            return ME_WRONG_FUNCTION;
+    } else {
+        /* The answer to a write repeats the register */
+        if(length < 6 || buff[2] * 256 + buff[3] != cmd->m_register)
+            return ME_WRONG_FUNCTION;
+    }
     /* If we get this far the message should be good */
+    cmd->responses++;
     switch (cmd->function) {
         case 1:
         case 2:
-            memcpy(cmd->data, &buff[3], buff[2]);
+            memcpy(cmd->data, &buff[3], size);
             break;
         case 3:
         case 4:
-            /* TODO: There may be times when we get more data than cmd->length but how to deal with that? */
-            for(n = 0; n < (buff[2] / 2); n++) {
+            for(n = 0; n < size / 2; n++) {
                 COPYWORD(&((uint16_t *)cmd->data)[n], &buff[(n * 2) + 3]);
             }
             break;
-        case 5:
-        case 6:
-        case 15:
-        case 16:
-            break;
         default:
             break;
     }
@@ -716,7 +787,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         }
 
         if(msglen > 0) {
-            result = handleresponse(buff, mc); /* Returns 0 on success + on failure */
+            result = handleresponse(buff, msglen, mc); /* Returns 0 on success + on failure */
             if(result > 0) {
                 mc->exceptions++;
                 mc->lasterror = result | ME_EXCEPTION;
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 8d7a866..efc8cae 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -279,6 +279,8 @@ typedef struct mb_port {
     uint8_t persist;              /* If true the port(s) stay open */
     uint8_t scanning;             /* A flag to tell us if we are currently scanning the port */
 
+    uint16_t tid;                 /* Transaction id of the last TCP request */
+
     pthread_mutex_t send_lock;
     tag_handle command_h;         /* Handle to command tag */
     mb_cmd *cmd;                  /* Pointer to the asynchronous command structure */
-- 
2.43.0


From fc839c4484e94eec4ac4b6552aac82945b640ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 27/41] fix: Modbus commands only touch the part of a tag that
 they have data for

---
 src/modules/modbus/modbus.c | 98 +++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 36 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 2f3ff6c..050ebd1 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -671,55 +671,81 @@ handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
     return 0;
 }
 
+/* Retrieves the handle of the command's data tag from the tag server if we don't
+ * have it yet.  If the tag has room for more data than the command then the handle is
+ * shortened so that it only covers what the command can read or write */
+static int
+_get_data_handle(mb_cmd *mc) {
+    int result, bits, size;
+
+    if(mc->data_h.index != 0) return 0;
+    if(mc->data_tag == NULL) return ERR_NOTFOUND;
+    result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
+    if(result) return result;
+    if(mc->data_h.type == DAX_BOOL) {
+        if(mc->function == 5) bits = 1;
+        else if(mc->function == 1 || mc->function == 2 || mc->function == 15) bits = mc->length;
+        else bits = mc->datasize * 8;
+        if(mc->data_h.count != bits) {
+            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
+        }
+        if(mc->data_h.count > bits) {
+            mc->data_h.count = bits;
+            mc->data_h.size = (mc->data_h.bit + bits - 1) / 8 + 1;
+        }
+    } else if(mc->data_h.size != mc->datasize) {
+        dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
+        if(mc->data_h.size > mc->datasize) {
+            size = mc->data_h.size / mc->data_h.count;
+            if(mc->datasize % size) { /* We only have a part of the last one */
+                mc->data_h.type = DAX_BYTE;
+                size = 1;
+            }
+            mc->data_h.count = mc->datasize / size;
+            mc->data_h.size = mc->datasize;
+        }
+    }
+    return 0;
+}
+
 /* This function is called before a write command request is sent.  It's purpose
- * is to read the data from the tagserver and put it in the command buffer.  First
- * it checks to see if we have already retrieved our handle from the
- * tag server.  If not then we attempt to retrieve it.  Then we make sure that
- * the sizes of the tag and the command buffer are the same and adjust if necessary.
- * If the handles has been retrieved then we simply read the data from the
- * tagserver and put it in the command data buffer so that it can be sent. */
+ * is to read the data from the tagserver and put it in the command data buffer so
+ * that it can be sent.  If the tag is smaller than the command the rest is zero. */
 static int
 _get_write_data(mb_cmd *mc) {
+    uint8_t *buff;
     int result;
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
-        }
+    result = _get_data_handle(mc);
+    if(result) return result;
+    /* The handle may be one byte larger if it doesn't begin at the first bit of a byte */
+    buff = malloc(mc->data_h.size);
+    if(buff == NULL) return ERR_ALLOC;
+    result = dax_read_tag(ds, mc->data_h, buff);
+    if(result == 0) {
+        bzero(mc->data, mc->datasize);
+        memcpy(mc->data, buff, MIN(mc->data_h.size, mc->datasize));
     }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_read_tag(ds, mc->data_h, mc->data);
+    free(buff);
+    return result;
 }
 
 /* This function is called after a command response has been received.  It's purpose
- * is to put the data into the tagserver.  It first checks to see if we have already
- * retrieved our handle from the tag server.  If not then we attempt to retrieve it.
- * Then we make sure that the sizes of the tag and the command buffer are the same
- * and adjust if necessary. If the handles has been retrieved then we simply write
- * the data from the command data buffer to the tagserver. */
+ * is to put the data from the command data buffer into the tagserver. */
 static int
 _send_read_data(mb_cmd *mc) {
+    uint8_t *buff;
     int result;
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data will be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
-        }
-    }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_write_tag(ds, mc->data_h, mc->data);
+    result = _get_data_handle(mc);
+    if(result) return result;
+    /* dax_write_tag() may change the data in the buffer */
+    buff = malloc(MAX(mc->data_h.size, mc->datasize));
+    if(buff == NULL) return ERR_ALLOC;
+    memcpy(buff, mc->data, mc->datasize);
+    result = dax_write_tag(ds, mc->data_h, buff);
+    free(buff);
+    return result;
 }
 
 
-- 
2.43.0


From f3e82dece00a2a103976cb2eca0badc47748cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 28/41] fix: the Modbus TCP client drops broken connections and
 makes new ones

---
 src/modules/modbus/mbports.c | 26 ++++++++++++++-
 src/modules/modbus/modbus.c  | 61 ++++++++++++++++++++----------------
 src/modules/modbus/modbus.h  |  1 +
 3 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index ca38732..2147f00 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -58,6 +58,7 @@ initport(mb_port *p)
     p->connection_size = MB_INIT_CONNECTION_SIZE;
     p->connection_count = 0;
     p->persist = 1;
+    p->scanning = 0;
     pthread_mutex_init(&p->send_lock, NULL);
 };
 
@@ -178,11 +179,13 @@ openIPport(mb_port *mp, struct in_addr address, uint16_t port)
     result = connect(fd, (struct sockaddr *)&addr, sizeof(addr));
 
     if(result == -1) {
+        close(fd);
         return -1;
     }
     result = fcntl(fd, F_SETFL, O_NONBLOCK);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to set socket to non blocking");
+        close(fd);
         return -1 ;
     }
     return fd;
@@ -341,6 +344,7 @@ mb_close_port(mb_port *port)
 
     if(port->devtype == MB_NETWORK) {
         for(int n=0; n<port->connection_count; n++) {
+            if(port->connections[n].fd == 0) continue;
             dax_log(DAX_LOG_COMM, "Closing Connection %d", port->connections[n].fd);
             result = close(port->connections[n].fd);
             port->connections[n].addr.s_addr = 0x0000;
@@ -428,7 +432,7 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     int n, fd;
 
     for(n=0;n<mp->connection_count;n++) {
-        if(mp->connections[n].addr.s_addr == address.s_addr && mp->connections[n].port == port) {
+        if(mp->connections[n].fd != 0 && mp->connections[n].addr.s_addr == address.s_addr && mp->connections[n].port == port) {
             /* We found one that matches */
             return mp->connections[n].fd;
         }
@@ -437,6 +441,10 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     fd = openIPport(mp, address, port);
     if(fd>=0) {
         n = _get_unused_connection(mp);
+        if(n < 0) {
+            close(fd);
+            return n;
+        }
         mp->connections[n].addr = address;
         mp->connections[n].port = port;
         mp->connections[n].fd = fd;
@@ -445,6 +453,22 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
 }
 
 
+/* Closes the connection and takes it out of the port's connection pool so that
+ * the next request to that address makes a new one */
+void
+mb_drop_connection(mb_port *mp, int fd) {
+    int n;
+
+    for(n=0;n<mp->connection_count;n++) {
+        if(mp->connections[n].fd == fd) {
+            close(fd);
+            bzero(&mp->connections[n], sizeof(tcp_connection));
+            return;
+        }
+    }
+}
+
+
 /* Adds a new command to the linked list of commands on port p
    This is the master port threads list of commands that it sends
    while running.  If all commands are to be asynchronous then this
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 050ebd1..5bdebc0 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -143,9 +143,12 @@ client_loop(mb_port *mp)
             if(!mp->persist) {
                 mb_close_port(mp);
             }
-            mp->scanning = 0; /* We're going to assume this is atomic for now */
+            mp->scanning = 0;
+            pthread_mutex_unlock(&mp->send_lock);
             usleep((mp->scanrate - time_spent) * 1000);
+            pthread_mutex_lock(&mp->send_lock);
             mp->scanning = 1;
+            pthread_mutex_unlock(&mp->send_lock);
         }
     }
     /* Close the port */
@@ -763,10 +766,11 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     uint8_t buff[MB_FRAME_LEN]; /* Modbus Frame buffer */
     int try = 1;
     int result, msglen;
-    static int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
-    static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
+    int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
+    int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
     if(!mc->enable) return 0; /* If we are not enabled we don't send */
+    if(mc->data == NULL) return MB_ERR_BAD_ARG; /* The command was never set up properly */
   /* This sets up the function pointers so we don't have to constantly check
    *  which protocol we are using for communication.  From this point on the
    *  code is generic for RTU or ASCII */
@@ -783,33 +787,36 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         return -1;
     }
     pthread_mutex_lock(&mp->send_lock);
-    if(mp->protocol == MB_TCP) {
-        /* We get our fd from the pool for TCP connections and put it in the
-         * port fd.  This just keeps it consistent with the serial port functions
-         * so that we don't have to pass the fd to the send/get functions */
-        mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
-        if(mp->fd < 0) {
-            pthread_mutex_unlock(&mp->send_lock);
-            return MB_ERR_OPEN;
-        }
-    }
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
+        if(result) { /* We don't have anything that we could send */
+            dax_log(DAX_LOG_ERROR, "Unable to read the data of a command on port %s", mp->name);
+            mc->lasterror = ME_FAILURE;
+            pthread_mutex_unlock(&mp->send_lock);
+            return result;
+        }
     }
     do { /* retry loop */
+        if(mp->protocol == MB_TCP) {
+            /* We get our fd from the pool for TCP connections and put it in the
+             * port fd.  This just keeps it consistent with the serial port functions
+             * so that we don't have to pass the fd to the send/get functions */
+            mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
+            if(mp->fd < 0) {
+                mc->lasterror = ME_TIMEOUT;
+                pthread_mutex_unlock(&mp->send_lock);
+                return MB_ERR_OPEN;
+            }
+        }
         result = sendrequest(mp, mc);
         if(result > 0) {
             msglen = getresponse(buff, mp);
         } else if(result == 0) {
             /* Should be 0 when a conditional command simply doesn't run */
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
-            return result;
+            break;
         } else {
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
-            return -1;
+            msglen = MB_ERR_RECV_FAIL;
         }
 
         if(msglen > 0) {
@@ -824,23 +831,23 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
                     result = _send_read_data(mc);
                 }
             }
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
-            return msglen; /* We got some kind of message so no sense in retrying */
+            result = msglen; /* We got some kind of message so no sense in retrying */
+            break;
         } else if(msglen == 0) {
             mc->timeouts++;
             mc->lasterror = ME_TIMEOUT;
         } else {
-            /* Checksum failed in response */
+            /* Checksum failed in response or we lost the connection */
             mc->crcerrors++;
             mc->lasterror = ME_CHECKSUM;
+            if(mp->protocol == MB_TCP) mb_drop_connection(mp, mp->fd);
         }
+        result = 0 - mc->lasterror;
     } while(try++ <= mp->retries);
-    /* After all the retries get out with error */
-    /* TODO: Should set error code?? */
-    if(!mp->scanning && !mp->persist) close(mp->fd);
+    /* Without persist the connections are only kept while the port is scanned */
+    if(mp->protocol == MB_TCP && !mp->scanning && !mp->persist) mb_drop_connection(mp, mp->fd);
     pthread_mutex_unlock(&mp->send_lock);
-    return 0 - mc->lasterror;
+    return result;
 }
 
 static int
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index efc8cae..fe2d151 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -316,6 +316,7 @@ int mb_set_maxfailures(mb_port *port, int maxfailures, int inhibit);
 int mb_open_port(mb_port *port);
 int mb_close_port(mb_port *port);
 int mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port);
+void mb_drop_connection(mb_port *mp, int fd);
 /* Set callback functions that are called any time data is read or written over the port */
 void mb_set_msgout_callback(mb_port *, void (*outfunc)(mb_port *,uint8_t *,unsigned int));
 void mb_set_msgin_callback(mb_port *, void (*infunc)(mb_port *,uint8_t *,unsigned int));
-- 
2.43.0


From 1d6fcc9009e4b1be9bf2f03823818d1ff78aab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 29/41] fix: asynchronous Modbus commands check what they are
 asked for

---
 src/modules/modbus/mbcmds.c  |  5 +++++
 src/modules/modbus/modmain.c | 34 ++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index 04bb0ec..33e17f0 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -44,6 +44,11 @@ initcmd(struct mb_cmd *c)
     c->lasterror = 0;
     c->lastcrc = 0;
     c->firstrun = 0;
+    c->data_tag = NULL;
+    c->trigger_tag = NULL;
+    c->tagcount = 0;
+    c->port = 0;
+    bzero(&c->ip_address, sizeof(struct in_addr));
     bzero(&c->data_h, sizeof(tag_handle));
     c->next = NULL;
 };
diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 8ca98fb..beb45f7 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -103,20 +103,31 @@ _enable_callback(dax_state *_ds, void *ud) {
 static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
-    uint8_t buff[port->command_h.size];
+    /* The handle doesn't include the data but the library formats the whole type */
+    uint8_t buff[port->command_h.size + MOD_DATA_REG_COUNT*2];
     int result;
 
+    bzero(buff, sizeof(buff));
+
     result = dax_read_tag(_ds, port->command_h, buff);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to read commadn tag for port %s", port->name);
     } else {
         port->cmd->ip_address.s_addr = (buff[6]<<24) + (buff[5]<<16) + (buff[4]<<8) + buff[3];
         port->cmd->port = *(dax_uint *)&buff[7];
-        port->cmd->node = buff[9];
-        port->cmd->function = buff[10];
-        port->cmd->m_register = *(dax_uint *)&buff[11];
-        port->cmd->length = *(dax_uint *)&buff[13];
-        result = mb_send_command(port, port->cmd);
+        /* This checks the arguments and gets the memory for that many registers */
+        result = mb_set_command(port->cmd, buff[9], buff[10], *(dax_uint *)&buff[11], *(dax_uint *)&buff[13]);
+        if(result == 0 && port->cmd->datasize > MOD_DATA_REG_COUNT * 2) result = MB_ERR_BAD_ARG;
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Bad command given for port %s", port->name);
+            port->cmd->lasterror = ME_BAD_VALUE;
+        } else {
+            /* Only the part of the data area that the command uses is read or written */
+            port->cmd->data_h.type = DAX_BYTE;
+            port->cmd->data_h.count = port->cmd->datasize;
+            port->cmd->data_h.size = port->cmd->datasize;
+            result = mb_send_command(port, port->cmd);
+        }
         buff[0] = 0;
         *(dax_int *)&buff[1] = port->cmd->lasterror;
         dax_write_tag(_ds, port->command_h, buff);
@@ -134,8 +145,8 @@ _add_async_command_tag(mb_port *port) {
     int result;
     char ctag[256];
     static int type_added;
+    static tag_type type;
     dax_cdt *cdt;
-    tag_type type;
     tag_handle h;
 
     if(type_added == 0) { /* First time we're called we add the CDT */
@@ -165,12 +176,11 @@ _add_async_command_tag(mb_port *port) {
             dax_log(DAX_LOG_ERROR, "Unable to allocate command to send");
         } else { /* Put a handle to the data area in our new command so mb_send_command() will work */
             snprintf(ctag, 256, "%s_cmd.data", port->name);
-            dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
-            /* Allocate the data area to hold the whole data part of the command */
-            port->cmd->data = malloc(port->cmd->data_h.size);
-            if(port->cmd->data == NULL) {
-                dax_log(DAX_LOG_ERROR, "Unable to allocate data for command");
+            result = dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
+            if(result) {
+                dax_log(DAX_LOG_ERROR, "Unable to get the data area of tag %s", ctag);
                 mb_destroy_cmd(port->cmd);
+                port->cmd = NULL;
             } else { /* Create a set event for the .send member */
                 snprintf(ctag, 256, "%s_cmd.send", port->name);
                 dax_tag_handle(ds, &h, ctag, 1);
-- 
2.43.0


From cb703f9e22e578c424ae7c8c8566e1a41ef81c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 30/41] fix: the Modbus module retries the events of every port

---
 src/modules/modbus/modmain.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index beb45f7..3e76645 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -299,7 +299,7 @@ _setup_port(mb_port *port)
  * calling function can call it repeatedly until all of the tags have been created.*/
 static int
 _setup_master_events(mb_port *port) {
-    int result=0;
+    int result, errors=0;
     struct mb_cmd *mc;
     event_ud *ud; /* This is the userdata for change and trigger events */
 
@@ -314,13 +314,13 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command write event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_WRITE, NULL, NULL, _change_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command write event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success... Turn the mode bit off so that we don't do this again if
                      * the function is called again. We turn of the change bit if it's set
@@ -338,14 +338,14 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command change event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_CHANGE, NULL, NULL, _change_callback, ud, _free_ud);
                 DF("dax_event_add() returned %d",result);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command change event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_ONCHANGE);
@@ -361,13 +361,13 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command trigger event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_SET, NULL, NULL, _trigger_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command trigger event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_TRIGGER);
@@ -376,7 +376,7 @@ _setup_master_events(mb_port *port) {
         }
         mc = mc->next;
     }
-    return result;
+    return errors;
 }
 
 static int
@@ -498,8 +498,8 @@ main (int argc, const char * argv[]) {
         /* for the first minute or until we have all the errors clear in the event
          * setting logic we try to setup the events in the master port */
         if(master_errors && loop_count < 60) {
+            master_errors = 0;
             for(n = 0; n < config.portcount; n++) {
-                master_errors = 0;
                 master_errors += _setup_master_events(config.ports[n]);
             }
         }
-- 
2.43.0


From f2edb7090a529df961477eadbd54d36aaf7a00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 31/41] fix: daxlua forgets that it has enlarged its list of
 scripts

---
 src/modules/daxlua/scripts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 3d98026..ce08a4b 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -52,6 +52,7 @@ get_new_script(void)
         ns = realloc(scripts, sizeof(script_t) * (scripts_size + NUM_SCRIPTS));
         if(ns != NULL) {
             scripts = ns;
+            scripts_size += NUM_SCRIPTS;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional scripts");
             return NULL;
-- 
2.43.0


From a5941297c6b907cade0ee981e6ae9788c9adda95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 32/41] fix: get_script_name() accepts negative numbers

---
 src/modules/daxlua/scripts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index ce08a4b..ff831b3 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -391,7 +391,7 @@ _get_script_name(lua_State *L) {
     int idx, result;
 
     idx = lua_tointegerx(L, 1, &result);
-    if(result && idx < scriptcount) {
+    if(result && idx >= 0 && idx < scriptcount) {
         lua_pushstring(L, scripts[idx].name);
     } else {
         lua_pushnil(L);
-- 
2.43.0


From b55bd244b6eceefda44327724e347c5c7da47d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 33/41] fix: the daxlua script queue loses scripts and can lock
 up at the start

---
 src/modules/daxlua/threads.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 715852b..0ded97a 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -41,7 +41,7 @@ static pthread_attr_t attr;
 
 static script_t **script_queue;
 static int q_first, q_last;
-static int q_full, q_empty;
+static int q_full, q_empty = 1;
 static int q_exit;
 
 
@@ -71,9 +71,9 @@ _q_push(script_t *script) {
     //DF("pushing %s, q_first = %d, q_last = %d",script->name, q_first, q_last);
     script_queue[q_last] = script;
     q_last++;
+    if(q_last >= queue_size) q_last = 0;
     if(q_last == q_first) q_full = 1;
     q_empty = 0;
-    if(q_last >= queue_size) q_last = 0;
     return 0;
 }
 
@@ -225,7 +225,7 @@ __queue_thread(void *num) {
     pthread_mutex_lock(&q_lock);
     while(1) {
         if(q_exit) break;
-        pthread_cond_wait(&q_cond, &q_lock);
+        if(q_empty) pthread_cond_wait(&q_cond, &q_lock);
 
         while(! q_empty) {
             script = _q_pop(); // Get the job off of the queue <<sorta>>
@@ -278,6 +278,7 @@ _run_queue_scripts(void) {
                 pthread_mutex_unlock(&q_lock);
                 n++;
             } else { /* If the queue is full */
+                pthread_mutex_unlock(&q_lock); /* let the threads take something */
                 usleep(50000);
             }
         } else { /* Not an event script */
-- 
2.43.0


From 127cc59ad7b0e746257128283619f199f9e3acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 34/41] fix: daxlua interval threads add the scripts' run time
 to the interval

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 0ded97a..9e32844 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -140,7 +140,7 @@ _interval_thread(void* thread_def) {
         }
         clock_gettime(CLOCK_MONOTONIC, &end);
 
-        sleep_time = (t->interval * 1000) - ((end.tv_sec - start.tv_sec) * 1e6) + ((end.tv_nsec - start.tv_nsec) / 1e3);
+        sleep_time = t->interval * 1000LL - ((end.tv_sec - start.tv_sec) * 1000000LL + (end.tv_nsec - start.tv_nsec) / 1000);
         if(sleep_time < 0) {
             t->overruns++;
             *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE+ sizeof(dax_udint)*2) = t->overruns;
-- 
2.43.0


From dd7448d889330ab0276c12e1f1e2f1f7dc53da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 35/41] fix: numbers lose digits on the way between Lua and the
 tags

REAL tags were read without their fraction, LWORD and ULINT tags were read
as negative floating point numbers and 64 bit integers were written by way
of floating point numbers.  Only half of a TIME tag was written.
---
 src/lib/lua/libdaxlua.c | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..583f5be 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -64,11 +64,11 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, *((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
@@ -213,43 +213,55 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 
 /* Here begin the tag writing functions.  */
 
+/* Returns the number at the top of the stack as an integer.  Integers are
+ * not converted to floating point because that would lose digits */
+static inline lua_Integer
+_to_integer(lua_State *L)
+{
+    lua_Integer x;
+    lua_Number f;
+    int isint;
+
+    x = lua_tointegerx(L, -1, &isint);
+    if(isint) return x;
+    f = lua_tonumber(L, -1);
+    if(f >= 0.0 && f < 18446744073709551616.0) return (lua_Integer)(uint64_t)f;
+    if(f < 0.0 && f > -9223372036854775808.0) return (lua_Integer)f;
+    return 0;
+}
+
 /* Takes the Lua value at the top of the stack, converts it and places it
  * in the proper place in data.  The mask is set as well.  */
 static inline void
 _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int index)
 {
-    lua_Integer x;
-
     assert(mask != NULL);
     switch (type) {
         case DAX_BYTE:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_byte *)data)[index] = x;
+            ((dax_byte *)data)[index] = (dax_byte)_to_integer(L);
             ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_SINT:
         case DAX_CHAR:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_sint *)data)[index] = x;
+            ((dax_sint *)data)[index] = (dax_sint)_to_integer(L);
             ((dax_sint *)mask)[index] = 0xFF;
             break;
         case DAX_WORD:
         case DAX_UINT:
-            ((dax_uint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_uint *)data)[index] = (dax_uint)_to_integer(L);
             ((dax_uint *)mask)[index] = 0xFFFF;
             break;
         case DAX_INT:
-            ((dax_int *)data)[index] = lua_tonumber(L, -1);
+            ((dax_int *)data)[index] = (dax_int)_to_integer(L);
             ((dax_int *)mask)[index] = 0xFFFF;
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
-            ((dax_udint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_udint *)data)[index] = (dax_udint)_to_integer(L);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_DINT:
-            ((dax_dint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_dint *)data)[index] = (dax_dint)_to_integer(L);
             ((dax_dint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_REAL:
@@ -258,11 +270,12 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_ulint *)data)[index] = (dax_ulint)_to_integer(L);
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
+        case DAX_TIME:
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_lint *)data)[index] = (dax_lint)_to_integer(L);
             ((dax_lint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LREAL:
-- 
2.43.0


From 47d3ede01e332a2dc1fd225bf0387e7cef7fb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 36/41] fix: strings written to tags overflow or leave the end
 undefined

A string was copied into arrays of every type.  The mask of a BOOL array was
overrun and what followed the string in a CHAR array was not initialized.
---
 src/lib/lua/libdaxlua.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 583f5be..505350c 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -297,8 +297,15 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
 
     if(tag.count > 1) { /* The tag is an array */
         if(lua_type(L, -1) == LUA_TSTRING) {
+            /* The others are not made of characters */
+            if(tag.type != DAX_CHAR && tag.type != DAX_SINT && tag.type != DAX_BYTE) {
+                lua_pushfstring(L, "Table needed to set tag");
+                return -1;
+            }
             s = lua_tolstring(L, -1, &len);
-            memcpy(data, s, tag.count<len ? tag.count : len);
+            if(len > tag.count) len = tag.count;
+            memcpy(data, s, len);
+            memset((char *)data + len, 0x00, tag.count - len);
             memset(mask, 0xFF, tag.count); /* Change it all */
         } else {
             /* Check that the second parameter is a table */
-- 
2.43.0


From 9f3088906493eacc2e0fc0761f64f7a7fa2143d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 37/41] fix: a wrong value in a table written to a compound tag
 ends the script host

The functions that convert Lua values go on with the other members after an
error, with the error message in the place of the table.
---
 src/lib/lua/libdaxlua.c | 70 +++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 505350c..84a975f 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -364,71 +364,64 @@ _write_callback(cdt_iter member, void *udata)
     unsigned char *mask = ((struct iter_udata *)udata)->mask;
     int offset, n, result = 0;
 
+    /* After an error the message is on the top of the stack instead of the table */
+    if(((struct iter_udata *)udata)->error) return;
+
+    lua_pushstring(L, member.name);
+    lua_rawget(L, -2);
+    if(lua_isnil(L, -1)) {
+        lua_pop(L, 1);
+        return;
+    }
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
         newdata.error = 0;
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
-        if(member.count > 1) {
-            for(n = 0;n < member.count; n++) {
+        if( ! lua_istable(L, -1) ) {
+            lua_pushfstring(L, "Table needed to set - %s", member.name);
+            result = -1;
+        } else if(member.count > 1) {
+            for(n = 0;n < member.count && result == 0; n++) {
                 offset = member.byte + (n * dax_get_typesize(ds, member.type));
                 newdata.data = (char *)data + offset;
                 newdata.mask = (char *)mask + offset;
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
-                }
                 lua_rawgeti(L, -1, n+1);
                 if(! lua_isnil(L, -1)) {
                     if( ! lua_istable(L, -1) ) {
-                        lua_pop(L, 1);
                         lua_pushfstring(L, "Table needed to set - %s", member.name);
-                        ((struct iter_udata *)udata)->error = -1;
-                        return;
+                        result = -1;
+                    } else {
+                        dax_cdt_iter(ds, member.type, &newdata , _write_callback);
+                        result = newdata.error;
                     }
-                    dax_cdt_iter(ds, member.type, &newdata , _write_callback);
                 }
-                lua_pop(L, 1);
-                if(newdata.error) {
-                    ((struct iter_udata *)udata)->error = newdata.error;
-                    return;
+                if(result) {
+                    lua_remove(L, -2); /* Only leave the message */
+                } else {
+                    lua_pop(L, 1);
                 }
             }
         } else {
             newdata.data = (char *)data + member.byte;
             newdata.mask = (char *)mask + member.byte;
-            if(! lua_isnil(L, -1)) {
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
-                }
-                dax_cdt_iter(ds, member.type, &newdata, _write_callback);
-            }
-            if(newdata.error) {
-                ((struct iter_udata *)udata)->error = newdata.error;
-                return;
-            }
+            dax_cdt_iter(ds, member.type, &newdata, _write_callback);
+            result = newdata.error;
         }
-        lua_pop(L, 1);
     } else {
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
-        if(! lua_isnil(L, -1)) {
-            result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
-        }
-        lua_pop(L, 1);
+        result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
     }
     if(result) {
+        lua_remove(L, -2); /* Only leave the message */
         ((struct iter_udata *)udata)->error = result;
+    } else {
+        lua_pop(L, 1);
     }
 }
 
 /* Main function that takes the tag on the top of the given Lua stack
  * and converts it to a *data area and a *mask area that can be written
  * to the tag server.  data and mask should be allocated and be large
- * enough to hold the entire tag. */
+ * enough to hold the entire tag.  If it fails the error message is pushed
+ * onto the stack. */
 /* This function takes care of the top level of the tag.  If the tag
  * is a simple base datatype tag then the _pop_base_datatype() function
  * is called directly and write is complete.  If the tag is a compound
@@ -463,10 +456,11 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
                     }
                     dax_cdt_iter(ds, h.type, &udata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(udata.error) {
+                    lua_remove(L, -2); /* Only leave the message */
                     return udata.error;
                 }
+                lua_pop(L, 1);
             }
         } else { /* Only one CDT */
             udata.data = data;
-- 
2.43.0


From 80498edca1bba7c5753dcb1f377d61e352422853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 38/41] fix: daxlua skips the rest of the global tags when one
 of them fails

The tags that follow in the list were never written and the values and error
messages were left on the Lua stack of the script until it overflowed.
---
 src/modules/daxlua/luaif.c   | 4 ++--
 src/modules/daxlua/scripts.c | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modules/daxlua/luaif.c b/src/modules/daxlua/luaif.c
index 8249427..f4be949 100644
--- a/src/modules/daxlua/luaif.c
+++ b/src/modules/daxlua/luaif.c
@@ -66,13 +66,13 @@ send_tag(lua_State *L, tag_handle h)
 
     data = malloc(h.size);
     if(data == NULL) {
-        luaL_error(L, "tag_write() unable to allocate data area");
+        return ERR_ALLOC;
     }
 
     mask = malloc(h.size);
     if(mask == NULL) {
         free(data);
-        luaL_error(L, "tag_write() unable to allocate mask memory");
+        return ERR_ALLOC;
     }
     bzero(mask, h.size);
 
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index ff831b3..37dfe27 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -209,6 +209,7 @@ static inline int
 _send_globals(script_t *s)
 {
     global_t *this;
+    int top;
 
     this = s->globals;
 
@@ -217,10 +218,12 @@ _send_globals(script_t *s)
         if(this->mode & MODE_WRITE && this->mode & MODE_INIT) {
             lua_getglobal(s->L, this->name);
 
+            /* One that fails must not keep the others from being written */
+            top = lua_gettop(s->L);
             if(send_tag(s->L, this->handle)) {
-                return -1;
+                dax_log(DAX_LOG_ERROR, "Unable to write tag %s for script %s", this->tagname, s->name);
             }
-            lua_pop(s->L, 1);
+            lua_settop(s->L, top - 1); /* There may be an error message too */
         }
 
         this = this->next;
@@ -271,6 +274,7 @@ run_script(script_t *s) {
         /* Run the script that is on the top of the stack */
         if( lua_pcall(s->L, 0, 0, 0) ) {
             dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
+            lua_pop(s->L, 1); /* The stack would overflow sooner or later */
             if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
         }
         s->running = 0;
-- 
2.43.0


From 4ee8f84dc8b8813ba0d20d19ea6591ef09cd38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 39/41] fix: daxlua triggers are lost when the event cannot be
 added at first

They are tried again now.  The data of the event could be overwritten by the
next event while it was passed to the script, data of an event that came right
after the event had been added was ignored and that of booleans that do not
begin at a byte boundary was given to the script from the wrong bit on.
---
 src/modules/daxlua/daxlua.h  |  4 +++-
 src/modules/daxlua/luaopt.c  |  1 +
 src/modules/daxlua/scripts.c |  5 ++--
 src/modules/daxlua/threads.c | 44 +++++++++++++++++++++++++++++++++---
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index e6d63bf..efb692d 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -64,7 +64,8 @@ typedef struct Trigger_t {
     int type;
     lua_Number value;
     tag_handle handle;
-    uint8_t *buff;
+    uint8_t *buff;     /* Data of the last event */
+    uint8_t *data;     /* Data that is given to the script */
     uint8_t new_data;
     dax_id id;
 } trigger_t;
@@ -136,5 +137,6 @@ void thread_set_qthreadcount(unsigned int count);
 void thread_set_queue_size(unsigned int size);
 int add_interval_thread(char *name, long interval);
 int thread_start_all(void);
+int thread_trigger_data(trigger_t *t);
 
 #endif /* !__DAXLUA_H */
diff --git a/src/modules/daxlua/luaopt.c b/src/modules/daxlua/luaopt.c
index b14f45d..9ad0760 100644
--- a/src/modules/daxlua/luaopt.c
+++ b/src/modules/daxlua/luaopt.c
@@ -39,6 +39,7 @@ _set_trigger(lua_State *L, trigger_t *t) {
     lua_getfield(L, -1, "tag");
 
     t->buff = NULL;
+    t->data = NULL;
     /* This indicates to the starting func that we are not configured */
     t->handle.size = 0;
     t->tagname = strdup((char *)lua_tostring(L, -1));
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 37dfe27..d2f97f6 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -257,10 +257,9 @@ run_script(script_t *s) {
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
     pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
-    if(s->script_trigger && s->script_trigger->new_data) {
-        daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->buff);
+    if(s->script_trigger && thread_trigger_data(s->script_trigger)) {
+        daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->data);
         lua_setglobal(s->L, "_trigger_data");
-        s->script_trigger->new_data = 0;
     }
 
     /* Get the configured tags and set the globals for the script */
diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 9e32844..1d87256 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -37,6 +37,8 @@ static int q_overruns;
 
 static pthread_mutex_t q_lock = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t q_cond = PTHREAD_COND_INITIALIZER;
+/* Protects the data that comes with the events of the triggers */
+static pthread_mutex_t trigger_lock = PTHREAD_MUTEX_INITIALIZER;
 static pthread_attr_t attr;
 
 static script_t **script_queue;
@@ -287,6 +289,32 @@ _run_queue_scripts(void) {
     }
 }
 
+/* Copies the data of the last event of the trigger into the 'data' member.
+   The script's lock must be held.  Returns zero if there is nothing new. */
+int
+thread_trigger_data(trigger_t *t) {
+    int result, n, bit;
+
+    pthread_mutex_lock(&trigger_lock);
+    result = t->new_data;
+    if(result) {
+        if(t->handle.type == DAX_BOOL) { /* The first bit goes to the beginning */
+            bzero(t->data, t->handle.size);
+            for(n = 0; n < t->handle.count; n++) {
+                bit = n + t->handle.bit;
+                if(t->buff[bit / 8] & (1 << (bit % 8))) {
+                    t->data[n / 8] |= (1 << (n % 8));
+                }
+            }
+        } else {
+            memcpy(t->data, t->buff, t->handle.size);
+        }
+        t->new_data = 0;
+    }
+    pthread_mutex_unlock(&trigger_lock);
+    return result;
+}
+
 /* This is the function that actually gets assigned to the opendax event.  The
    userdata pointer should be a pointer to the script that we wish to run */
 static void
@@ -301,10 +329,12 @@ _script_event_dispatch(dax_state *d, void *udata) {
     if(t->buff != NULL) {
         /* We have to retrieve the data here but we cannot write it to the Lua
            state yet because of race conditions. */
+        pthread_mutex_lock(&trigger_lock);
         result = dax_event_get_data(ds, t->buff, t->handle.size);
         if(result > 0) {
             t->new_data = 1; /* This flag tells run_script() that we have new data */
         }
+        pthread_mutex_unlock(&trigger_lock);
     }
 
     pthread_mutex_lock(&q_lock);
@@ -360,7 +390,6 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)x;
             return;
         case DAX_DINT:
@@ -370,6 +399,7 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
         case DAX_LWORD:
             dest->dax_ulint = (dax_ulint)x;
             return;
+        case DAX_TIME:
         case DAX_LINT:
             dest->dax_lint = (dax_lint)x;
             return;
@@ -415,14 +445,20 @@ _set_trigger_events(void *x) {
                     fails++;
                 } else {
                     _convert_lua_number(t->handle.type, &u, t->value);
+                    /* The event can happen as soon as it is added.  If this is NULL
+                       we won't mess with the data in the dispatch function*/
+                    t->data = calloc(2, t->handle.size);
+                    t->buff = t->data == NULL ? NULL : t->data + t->handle.size;
                     result = dax_event_add(ds, &t->handle, t->type, (void *)&u,
                                            &t->id, _script_event_dispatch, s, NULL);
                     if(result) {
                         fails++;
+                        t->handle.size = 0; /* Try again */
+                        t->buff = NULL;
+                        free(t->data);
+                        t->data = NULL;
                     } else {
                         result = dax_event_options(ds, t->id, EVENT_OPT_SEND_DATA);
-                        /* If this is NULL we won't mess with the data in the dispatch function*/
-                        t->buff = malloc(t->handle.size);
                     }
                 }
             }
@@ -440,6 +476,7 @@ _set_trigger_events(void *x) {
                                            &t->id, _script_enable_dispatch, s, NULL);
                     if(result) {
                         fails++;
+                        t->handle.size = 0; /* Try again */
                     }
                 }
             }
@@ -454,6 +491,7 @@ _set_trigger_events(void *x) {
                                            &t->id, _script_disable_dispatch, s, NULL);
                     if(result) {
                         fails++;
+                        t->handle.size = 0; /* Try again */
                     }
                 }
             }
-- 
2.43.0


From 3cb37f60c76778a8d6780a6ddfeeebcb2e748827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:44 +0000
Subject: [PATCH 40/41] fix: daxlua crashes without the name of a trigger tag
 or without the thread tag

---
 src/modules/daxlua/luaopt.c  | 4 ++--
 src/modules/daxlua/threads.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/daxlua/luaopt.c b/src/modules/daxlua/luaopt.c
index 9ad0760..8e671d2 100644
--- a/src/modules/daxlua/luaopt.c
+++ b/src/modules/daxlua/luaopt.c
@@ -42,9 +42,9 @@ _set_trigger(lua_State *L, trigger_t *t) {
     t->data = NULL;
     /* This indicates to the starting func that we are not configured */
     t->handle.size = 0;
-    t->tagname = strdup((char *)lua_tostring(L, -1));
+    string = (char *)lua_tostring(L, -1);
     t->new_data = 0;
-    if(t->tagname == NULL) {
+    if(string == NULL || (t->tagname = strdup(string)) == NULL) {
         return "'tagname' is required for an event trigger";
     }
     lua_pop(L, 1);
diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 1d87256..27cb5f7 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -101,7 +101,7 @@ int
 add_interval_thread(char *name, long interval) {
     interval_thread_t *new_thread, *this;
 
-    new_thread = malloc(sizeof(interval_thread_t));
+    new_thread = calloc(1, sizeof(interval_thread_t));
     if(new_thread == NULL) {
         dax_log(DAX_LOG_FATAL, "Unable to allocate memory for new interval thread %s", name);
         return ERR_ALLOC;
@@ -174,11 +174,11 @@ _start_interval_thread(interval_thread_t *t) {
         }
     }
 
-    t->tag_data = malloc(t->handle.size);
+    t->tag_data = malloc(MAX(t->handle.size, DAX_TAGNAME_SIZE + sizeof(dax_udint) * 3));
     if(t->tag_data == NULL) {
         dax_log(DAX_LOG_ERROR, "Unable to allocate memory for thread tag");
     } else {
-        bzero(t->tag_data, t->handle.size);
+        bzero(t->tag_data, MAX(t->handle.size, DAX_TAGNAME_SIZE + sizeof(dax_udint) * 3));
         strncpy(t->tag_data, t->name, DAX_TAGNAME_SIZE);
         *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE) = t->interval;
         *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE+ sizeof(dax_udint)) = t->scriptcount;
-- 
2.43.0


From eacedb3e350cd8daa2578fa403fe6bbe87e4b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 41/41] fix: the enable state of daxlua scripts is overwritten
 with an old one

The tag was written with the state that the module knew, even if another module
had just changed it, and the events caused by the module's own writes were taken
for commands.  A command for a script only took effect with its next run and
never if the script was running and disabled itself.
---
 src/modules/daxlua/daxlua.h  |   3 +
 src/modules/daxlua/scripts.c | 136 ++++++++++++++++++++++++++---------
 src/modules/daxlua/threads.c |   4 +-
 3 files changed, 106 insertions(+), 37 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index efb692d..e402c76 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -78,6 +78,8 @@ typedef struct Script_t {
     unsigned char enabled;
     unsigned char failed;
     unsigned char command;
+    unsigned char tag_enable; /* The enable bit has to be written to the tag */
+    pthread_mutex_t tag_lock; /* One thread at a time writes the tag */
     unsigned char flags;
     char *name;
     char *filename;
@@ -125,6 +127,7 @@ script_t *get_script_name(char *name);
 int add_global(script_t *script, char *varname, char* tagname, unsigned char mode);
 int add_static(script_t *script, lua_State *L, char* varname);
 int write_script_tag(script_t *script);
+void set_script_command(script_t *script, unsigned char command);
 
 
 /* luaif.c - Lua Interface functions */
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index d2f97f6..4574b52 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -32,6 +32,9 @@ static int scriptcount = 0;
 extern dax_state *ds;
 extern int runsignal;
 
+/* Protects the enabled, running, command and tag_enable members of the scripts */
+static pthread_mutex_t enable_lock = PTHREAD_MUTEX_INITIALIZER;
+
 /* This function returns an index into the scripts[] array for
    the next unassigned script */
 script_t *
@@ -63,6 +66,9 @@ get_new_script(void)
     /* Initialize the script structure */
     scripts[n].L = luaL_newstate();
     pthread_mutex_init(&scripts[n].lock, NULL);
+    pthread_mutex_init(&scripts[n].tag_lock, NULL);
+    scripts[n].handle.size = 0;
+    scripts[n].tag_enable = 1;
     scripts[n].name =  "";
     scripts[n].globals = NULL;
     scripts[n].firstrun = 1;
@@ -231,32 +237,55 @@ _send_globals(script_t *s)
     return 0;
 }
 
+/* Does what the script has been told by set_script_command().  The
+   enable_lock mutex must be held before calling this function */
+static inline void
+_script_command(script_t *s) {
+    if(s->command == COMMAND_ENABLE) {
+        s->enabled = 1;
+    } else if(s->command == COMMAND_DISABLE) {
+        s->enabled = 0;
+    }
+    s->command = 0x00;
+    s->tag_enable = 1;
+}
+
+/* Enables or disables the script */
 void
-run_script(script_t *s) {
-    struct timespec start;
+set_script_command(script_t *s, unsigned char command) {
+    int running;
 
+    pthread_mutex_lock(&enable_lock);
+    s->command = command;
+    running = s->running;
     /* this is to avoid a race condition where another script could set the
        enabled flag while the script was running and then the script would
-       disable itself afterward. */
-    if(s->command) {
-        if(s->command == COMMAND_ENABLE) {
-            s->enabled = 1;
-        } else if(s->command == COMMAND_DISABLE) {
-            s->enabled = 0;
-        }
-        s->command = 0x00;
-    }
+       disable itself afterward.  It will be done when the script ends. */
+    if(!running) _script_command(s);
+    pthread_mutex_unlock(&enable_lock);
+    if(!running) write_script_tag(s);
+}
+
+void
+run_script(script_t *s) {
+    struct timespec start;
+
+    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
+    pthread_mutex_lock(&enable_lock);
     /* In this case do nothing */
     if(s->failed || s->enabled == 0 || runsignal == 0) {
+        pthread_mutex_unlock(&enable_lock);
+        pthread_mutex_unlock(&s->lock);
         return;
     }
+    s->running = 1;
+    pthread_mutex_unlock(&enable_lock);
 
     /* Get the time since system startup (in Linux) */
     clock_gettime(CLOCK_MONOTONIC, &start);
     /* This is the time that we are running the script now in mSec since system startup */
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
-    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     if(s->script_trigger && thread_trigger_data(s->script_trigger)) {
         daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->data);
         lua_setglobal(s->L, "_trigger_data");
@@ -269,14 +298,12 @@ run_script(script_t *s) {
         /* retrieve the funciton and put it on the stack */
         lua_rawgeti(s->L, LUA_REGISTRYINDEX, s->func_ref);
 
-        s->running = 1;
         /* Run the script that is on the top of the stack */
         if( lua_pcall(s->L, 0, 0, 0) ) {
             dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
             lua_pop(s->L, 1); /* The stack would overflow sooner or later */
             if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
         }
-        s->running = 0;
         /* Set the lastscan value in uSec */
         s->lastscan = s->thisscan;
         /* Write the configured global tags out to the server */
@@ -285,8 +312,12 @@ run_script(script_t *s) {
         _send_globals(s);
         s->executions++;
         s->firstrun = 0;
-        write_script_tag(s);
     }
+    pthread_mutex_lock(&enable_lock);
+    s->running = 0;
+    if(s->command) _script_command(s);
+    pthread_mutex_unlock(&enable_lock);
+    write_script_tag(s);
     pthread_mutex_unlock(&s->lock); /* Make sure we only run one at a time. */
 }
 
@@ -298,7 +329,10 @@ _disable_self(lua_State *L) {
     script_t *s;
 
     s = lua_touserdata(L, lua_upvalueindex(1));
+    pthread_mutex_lock(&enable_lock);
     s->enabled = 0;
+    s->tag_enable = 1;
+    pthread_mutex_unlock(&enable_lock);
     return 0;
 }
 
@@ -428,7 +462,7 @@ _disable_script(lua_State *L) {
         }
     }
     if(idx >= 0 && idx < scriptcount) {
-        scripts[idx].command = COMMAND_DISABLE;
+        set_script_command(&scripts[idx], COMMAND_DISABLE);
         lua_pushinteger(L, idx);
     } else {
         lua_pushnil(L);
@@ -459,7 +493,7 @@ _enable_script(lua_State *L) {
         }
     }
     if(idx >= 0 && idx < scriptcount) {
-        scripts[idx].command = COMMAND_ENABLE;
+        set_script_command(&scripts[idx], COMMAND_ENABLE);
         lua_pushinteger(L, idx);
     } else {
         lua_pushnil(L);
@@ -533,17 +567,14 @@ _initialize_script(script_t *s)
 static void
 _script_tag_callback(dax_state *ds, void *udata) {
     script_t *script = (script_t *)udata;
-    uint8_t buff[SCRIPT_TAG_LEN];
-
-    dax_event_get_data(ds, buff, SCRIPT_TAG_LEN);
+    uint8_t buff;
 
-    if(buff[DAX_TAGNAME_SIZE] & 0x01) { /* check enable bit */
-        script->enabled = 1;
-    } else {
-        script->enabled = 0;
+    /* The event is only that of the enable bit */
+    if(dax_event_get_data(ds, &buff, 1) == 1) {
+        pthread_mutex_lock(&enable_lock);
+        script->enabled = buff & 0x01;
+        pthread_mutex_unlock(&enable_lock);
     }
-
-    write_script_tag(script);
 }
 
 int
@@ -554,7 +585,9 @@ start_all_scripts(void)
     dax_cdt *script_cdt;
     tag_type script_type;
     char tagname[DAX_TAGNAME_SIZE+1];
-    char tagname2[DAX_TAGNAME_SIZE+12];
+    char tagname2[DAX_TAGNAME_SIZE+20];
+    uint8_t enable;
+    tag_handle h;
     dax_id id;
 
     script_cdt = dax_cdt_new("lua_script", &result);
@@ -581,11 +614,24 @@ start_all_scripts(void)
 
         snprintf(tagname2, sizeof(tagname2), "%s[%d]", tagname, n);
         result = dax_tag_handle(ds, &scripts[n].handle, tagname2, 0);
-        if(result == ERR_OK) {
-            result = dax_event_add(ds, &scripts[n].handle, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
-            result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to find tag %s", tagname2);
+            continue;
         }
         write_script_tag(&scripts[n]);
+        strcat(tagname2, ".enable");
+        result = dax_tag_handle(ds, &h, tagname2, 0);
+        if(result == ERR_OK) result = dax_event_add(ds, &h, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
+        if(result == ERR_OK) result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+        /* It may have been changed before we had the event */
+        if(result == ERR_OK) result = dax_tag_read(ds, h, &enable);
+        if(result == ERR_OK) {
+            pthread_mutex_lock(&enable_lock);
+            scripts[n].enabled = enable & 0x01;
+            pthread_mutex_unlock(&enable_lock);
+        } else {
+            dax_log(DAX_LOG_ERROR, "Unable to add the event of tag %s", tagname2);
+        }
     }
 
     thread_start_all();
@@ -624,18 +670,38 @@ get_script_name(char *name)
     return NULL;
 }
 
+/* The enable bit is only written if it was changed here.  Otherwise
+   it could overwrite what another module has written to it. */
 int
 write_script_tag(script_t *script) {
     uint8_t buff[SCRIPT_TAG_LEN];
+    uint8_t mask[SCRIPT_TAG_LEN];
+    int result;
 
+    if(script->handle.size == 0) return ERR_NOTFOUND;
     bzero(buff, SCRIPT_TAG_LEN);
-    memccpy(buff, script->name, '\0', DAX_TAGNAME_SIZE);
-    if(script->enabled) {
-        buff[DAX_TAGNAME_SIZE] = 0x01;
+    memset(mask, 0xFF, SCRIPT_TAG_LEN);
+    mask[DAX_TAGNAME_SIZE] = 0x02;
+    strncpy((char *)buff, script->name, DAX_TAGNAME_SIZE);
+
+    pthread_mutex_lock(&script->tag_lock);
+    pthread_mutex_lock(&enable_lock);
+    if(script->tag_enable) {
+        mask[DAX_TAGNAME_SIZE] |= 0x01;
+        if(script->enabled) buff[DAX_TAGNAME_SIZE] |= 0x01;
+        script->tag_enable = 0;
     }
+    pthread_mutex_unlock(&enable_lock);
     if(script->failed) {
         buff[DAX_TAGNAME_SIZE] |= 0x02;
     }
     *(dax_ulint *)&buff[DAX_TAGNAME_SIZE + 1] = script->executions;
-    return dax_tag_write(ds, script->handle, buff);
-}
\ No newline at end of file
+    result = dax_tag_mask(ds, script->handle, buff, mask);
+    if(result && (mask[DAX_TAGNAME_SIZE] & 0x01)) { /* Next time */
+        pthread_mutex_lock(&enable_lock);
+        script->tag_enable = 1;
+        pthread_mutex_unlock(&enable_lock);
+    }
+    pthread_mutex_unlock(&script->tag_lock);
+    return result;
+}
diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 27cb5f7..527cd43 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -354,7 +354,7 @@ _script_enable_dispatch(dax_state *d, void *udata) {
     script_t *script;
 
     script = (script_t *)udata;
-    script->command = COMMAND_ENABLE;
+    set_script_command(script, COMMAND_ENABLE);
 }
 
 static void
@@ -362,7 +362,7 @@ _script_disable_dispatch(dax_state *d, void *udata) {
     script_t *script;
 
     script = (script_t *)udata;
-    script->command = COMMAND_DISABLE;
+    set_script_command(script, COMMAND_DISABLE);
 }
 
 
-- 
2.43.0

