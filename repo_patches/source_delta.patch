From c1ba9ee5048b70d6524e30ba81bd495772de4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 01/85] fix: delete rows from the last to the first

Removing a row shifts the rows after it, so removing the matching rows in
ascending order removed other rows than the ones the WHERE clause selected.
---
 libmsi/delete.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..cd489d3 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,14 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* remove all the rows that match, starting from the last one, as removing
+     * a row changes the index of the rows after it */
+    for ( i=rows; i>0; i-- )
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From fd27ad30c2de3a03bbeda6685dafc0f14dbd080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 02/85] fix: UPDATE: find the WHERE parameters behind the
 assigned wildcards

The position of the first parameter of the WHERE clause was computed from
the number of assigned columns, even when some of them were assigned
constants: the parameters were misplaced, or their count wrapped around.
---
 libmsi/update.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..5dbb893 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -54,21 +54,23 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     LibmsiRecord *values = NULL;
     LibmsiRecord *where = NULL;
     LibmsiView *wv;
-    unsigned cols_count, where_count;
+    unsigned wildcard_count, where_count;
     column_info *col = uv->vals;
 
     TRACE("%p %p\n", uv, record );
 
-    /* extract the where markers from the record */
+    /* extract the where markers from the record, they follow the ones
+     * of the assigned values */
     if (record)
     {
         r = libmsi_record_get_field_count(record);
 
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val->type == EXPR_WILDCARD)
+                i++;
 
-        cols_count = i;
-        where_count = r - i;
+        wildcard_count = i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
@@ -76,7 +78,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
             if (where)
                 for (i = 1; i <= where_count; i++)
-                    _libmsi_record_copy_field(record, cols_count + i, where, i);
+                    _libmsi_record_copy_field(record, wildcard_count + i, where, i);
         }
     }
 
-- 
2.43.0


From f1d48b7713f35d52bbde4d7a7313074f6c7328f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 03/85] fix: joins: account for string parameters of conditions
 not evaluated yet

A comparison of a column of a table not joined yet returned before counting
its parameter, so that the following parameters were taken from the wrong
field.
---
 libmsi/where.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..e006ae2 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -512,15 +512,18 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* evaluate both sides in any case, to account for all wildcards */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl != LIBMSI_RESULT_SUCCESS && rl != LIBMSI_RESULT_CONTINUE)
+        return rl;
+    if (rr != LIBMSI_RESULT_SUCCESS)
+        return rr;
+    if (rl != LIBMSI_RESULT_SUCCESS)
+        return rl;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From e857d0a7f22503d49e7696fbe0ce976307959ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 04/85] fix: report missing query parameters instead of using
 invalid memory

A statement with wildcards executed without a record, or with too short a
record, read the missing WHERE parameters from a NULL record, and an INSERT
reported success without inserting anything.
---
 libmsi/insert.c |  3 +++
 libmsi/where.c  | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..a5828ec 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -223,7 +223,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
diff --git a/libmsi/where.c b/libmsi/where.c
index e006ae2..6464cae 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -495,7 +495,11 @@ static unsigned expr_eval_string( LibmsiWhereView *wv, const unsigned rows[],
         break;
 
     case EXPR_WILDCARD:
-        *str = _libmsi_record_get_string_raw(record, ++wv->rec_index);
+        *str = NULL;
+        if (!record || ++wv->rec_index > libmsi_record_get_field_count(record))
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+        else
+            *str = _libmsi_record_get_string_raw(record, wv->rec_index);
         break;
 
     default:
@@ -582,7 +586,9 @@ static unsigned where_view_evaluate( LibmsiWhereView *wv, const unsigned rows[],
         return expr_eval_strcmp( wv, rows, &cond->u.expr, val, record );
 
     case EXPR_WILDCARD:
-        *val = libmsi_record_get_int( record, ++wv->rec_index );
+        if (!record || ++wv->rec_index > libmsi_record_get_field_count(record))
+            return LIBMSI_RESULT_INVALID_PARAMETER;
+        *val = libmsi_record_get_int( record, wv->rec_index );
         return LIBMSI_RESULT_SUCCESS;
 
     default:
-- 
2.43.0


From 03b34f527ed1261fcfb8b302ae2ee7f146ad7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 05/85] fix: joins: do not skip rows on IS NULL of a table not
 joined yet

The value of the condition was left unset, which dropped the rows of the
tables joined before. Also keep a failure to evaluate the condition when the
result is ordered.
---
 libmsi/where.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 6464cae..7677aa9 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -454,6 +454,7 @@ static unsigned expr_eval_unary( LibmsiWhereView *wv, const unsigned rows[],
     unsigned r;
     unsigned lval;
 
+    *val = true;
     r = expr_fetch_value(&expr->left->u.column, rows, &lval);
     if(r != LIBMSI_RESULT_SUCCESS)
         return r;
@@ -464,7 +465,7 @@ static unsigned expr_eval_unary( LibmsiWhereView *wv, const unsigned rows[],
         *val = !lval;
         break;
     case OP_NOTNULL:
-        *val = lval;
+        *val = lval != 0;
         break;
     default:
         g_critical("Unknown operator %d\n", expr->op );
@@ -812,7 +813,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     qsort(wv->reorder, wv->row_count, sizeof(LibmsiRowEntry *), compare_entry);
 
-    if (wv->order_info)
+    if (r == LIBMSI_RESULT_SUCCESS && wv->order_info)
         r = wv->order_info->error;
 
     msi_free( rows );
-- 
2.43.0


From e0efd2c2b71c6144b0d95856211c00e75ff29dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 06/85] fix: store all fields of rows with 32 or more columns

Shifting 1 by the number of columns yields an empty mask for 32 columns, so
that rows inserted in such tables were stored with empty fields.
---
 libmsi/query.h  | 7 +++++++
 libmsi/select.c | 9 +++++++--
 libmsi/table.c  | 8 ++++----
 libmsi/update.c | 2 +-
 libmsi/where.c  | 8 ++++----
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/libmsi/query.h b/libmsi/query.h
index 78791fd..fd7e83d 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -95,6 +95,13 @@ struct expr
 unsigned _libmsi_parse_sql( LibmsiDatabase *db, const char *command, LibmsiView **phview,
                    struct list *mem );
 
+/* mask selecting the first n columns in LibmsiViewOps.set_row(); with more
+ * columns than bits, a full mask selects all of them */
+static inline unsigned msi_column_mask( unsigned n )
+{
+    return n >= 32 ? ~0u : (1u << n) - 1;
+}
+
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view );
 
 unsigned select_view_create( LibmsiDatabase *db, LibmsiView **view, LibmsiView *table,
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..74cf4e9 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~msi_column_mask( sv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -122,10 +122,15 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
     /* move the right fields across */
     for ( i=0; i<sv->num_cols; i++ )
     {
+        if ( !sv->cols[i] || sv->cols[i] > 32 )
+        {
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+            break;
+        }
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        expanded_mask |= (1u<<(sv->cols[i]-1));
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..85b032f 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1317,7 +1317,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~msi_column_mask( tv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1325,7 +1325,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( i < 32 ? !(mask & (1u<<i)) : mask != ~0u )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1656,7 +1656,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    return table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
@@ -2509,7 +2509,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, msi_column_mask( tv->num_cols ) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 5dbb893..a21ce1b 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -107,7 +107,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, msi_column_mask( col_count ) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index 7677aa9..6ea578d 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~msi_column_mask( wv->col_count ))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (i >= 32 || !(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < 32 ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = offset < 32 ? (mask >> offset) & msi_column_mask( col_count ) : 0;
 
         if (!reduced_mask)
         {
-- 
2.43.0


From a8982b923f5b4280ae338e071eefaab191f19b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 07/85] fix: validate all the fields of a row before storing
 any of them

A value out of range made INSERT and UPDATE fail with part of the fields
stored: a failed INSERT left a row behind.
---
 libmsi/table.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 85b032f..ed1fc94 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1308,10 +1308,42 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* check that the fields of a record can be stored, before storing any */
+static unsigned table_validate_fields( LibmsiTableView *tv, LibmsiRecord *rec, unsigned mask )
+{
+    unsigned i, val;
+
+    for ( i = 0; i < tv->num_cols; i++ )
+    {
+        unsigned type = tv->columns[i].type;
+
+        if ( i < 32 ? !(mask & (1u<<i)) : mask != ~0u )
+            continue;
+
+        if ( libmsi_record_is_null( rec, i + 1 ) )
+            continue;
+
+        if ( MSITYPE_IS_BINARY(type) )
+        {
+            GsfInput *stm;
+            unsigned r = _libmsi_record_get_gsf_input( rec, i + 1, &stm );
+
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+            g_object_unref(G_OBJECT(stm));
+        }
+        else if ( !( type & MSITYPE_STRING ) &&
+                  get_table_value_from_record( tv, rec, i + 1, &val ) != LIBMSI_RESULT_SUCCESS )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
 static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned i, val, r = LIBMSI_RESULT_SUCCESS;
+    unsigned i, val, r;
 
     if ( !tv->table )
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -1320,6 +1352,10 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( mask & ~msi_column_mask( tv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    r = table_validate_fields( tv, rec, mask );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     for ( i = 0; i < tv->num_cols; i++ )
     {
         bool persistent;
@@ -1638,6 +1674,10 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
     if( r != LIBMSI_RESULT_SUCCESS )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    r = table_validate_fields( tv, rec, msi_column_mask( tv->num_cols ) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     if (row == -1)
         row = find_insert_index( tv, rec );
 
-- 
2.43.0


From 23d6dc57c7b3b49187b666f38fa4274857cc1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 08/85] fix: do not let UPDATE break the constraints of a table

UPDATE could store null in a column that does not allow it, and, without a
WHERE clause, change primary keys (giving rows equal keys).
---
 libmsi/update.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/libmsi/update.c b/libmsi/update.c
index a21ce1b..2047b5e 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -47,6 +47,39 @@ static unsigned update_view_fetch_int( LibmsiView *view, unsigned row, unsigned
     return LIBMSI_RESULT_FUNCTION_FAILED;
 }
 
+/* check that the assigned columns can take the new values: keys cannot be
+ * updated, and nulls must be allowed */
+static unsigned update_view_validate( LibmsiUpdateView *uv, LibmsiRecord *values, unsigned col_count )
+{
+    LibmsiView *wv = uv->wv;
+    unsigned i, r, type;
+
+    for (i = 1; i <= col_count; i++)
+    {
+        r = wv->ops->get_column_info( wv, i, NULL, &type, NULL, NULL );
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
+
+        if (type & MSITYPE_KEY)
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+
+        if ((type & MSITYPE_NULLABLE) || MSITYPE_IS_BINARY(type))
+            continue;
+
+        if (type & MSITYPE_STRING)
+        {
+            const char *str = _libmsi_record_get_string_raw( values, i );
+
+            if (!str || !str[0])
+                return LIBMSI_RESULT_INVALID_DATA;
+        }
+        else if (libmsi_record_get_int( values, i ) == LIBMSI_NULL_INT)
+            return LIBMSI_RESULT_INVALID_DATA;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
 static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiUpdateView *uv = (LibmsiUpdateView*)view;
@@ -105,6 +138,11 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
         goto done;
     }
 
+    if (row_count)
+        r = update_view_validate( uv, values, col_count );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
     for ( i=0; i<row_count; i++ )
     {
         r = wv->ops->set_row( wv, i, values, msi_column_mask( col_count ) );
-- 
2.43.0


From 3adc3023a767db7fdeec53ccf877662001d1bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 09/85] fix: remove the binary data of deleted rows

Deleting a row, dropping its table or setting its binary column to null left
the stream in the package, where a later row with the same key got it as its
value. Also free the names of removed streams and storages.
---
 libmsi/libmsi-database.c |  2 ++
 libmsi/table.c           | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..3cd205b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -315,6 +315,7 @@ void msi_destroy_storage( LibmsiDatabase *db, const char *stname )
 
             list_remove( &storage->entry );
             g_object_unref(G_OBJECT(storage->stg));
+            msi_free( storage->name );
             msi_free( storage );
             break;
         }
@@ -525,6 +526,7 @@ void msi_destroy_stream( LibmsiDatabase *db, const char *stname )
 
             list_remove( &stream->entry );
             g_object_unref(G_OBJECT(stream->stm));
+            msi_free( stream->name );
             msi_free( stream );
             break;
         }
diff --git a/libmsi/table.c b/libmsi/table.c
index ed1fc94..4d05971 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1263,6 +1263,32 @@ err:
     return r;
 }
 
+/* remove the stream that holds the binary data of a row, if any */
+static void table_destroy_row_stream( LibmsiTableView *tv, unsigned row )
+{
+    unsigned i, val;
+
+    for ( i = 0; i < tv->num_cols; i++ )
+    {
+        char *stname, *encname;
+
+        if ( !MSITYPE_IS_BINARY(tv->columns[i].type) )
+            continue;
+
+        if ( table_view_fetch_int( &tv->view, row, i + 1, &val ) != LIBMSI_RESULT_SUCCESS || !val )
+            continue;
+
+        if ( msi_stream_name( tv, row, &stname ) != LIBMSI_RESULT_SUCCESS )
+            continue;
+
+        encname = encode_streamname( false, stname );
+        if ( encname )
+            msi_destroy_stream( tv->db, encname );
+        msi_free( encname );
+        msi_free( stname );
+    }
+}
+
 static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *rec, unsigned iField, unsigned *pvalue )
 {
     LibmsiColumnInfo columninfo;
@@ -1421,6 +1447,8 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                     return LIBMSI_RESULT_FUNCTION_FAILED;
             }
         }
+        else if ( MSITYPE_IS_BINARY(tv->columns[i].type) )
+            table_destroy_row_stream( tv, row );
 
         r = table_view_set_int( tv, row, i+1, val );
         if ( r != LIBMSI_RESULT_SUCCESS )
@@ -1694,6 +1722,9 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
         tv->table->data_persistent[i] = tv->table->data_persistent[i - 1];
     }
 
+    /* start from an empty row */
+    memset(&(tv->table->data[row][0]), 0, tv->row_size);
+
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
     return table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
@@ -1716,6 +1747,8 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
     if ( row >= num_rows )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    table_destroy_row_stream( tv, row );
+
     num_rows = tv->table->row_count;
     tv->table->row_count--;
 
@@ -1970,6 +2003,9 @@ static unsigned table_view_drop(LibmsiView *view)
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
+    for (row = 0; row < tv->table->row_count; row++)
+        table_destroy_row_stream( tv, row );
+
     for (i = tv->table->col_count - 1; i >= 0; i--)
     {
         r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
-- 
2.43.0


From 495135fd4f8c5919f5d08fa03280486f5a67b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 10/85] fix: keep the strings that lasting rows share with
 temporary data

A string first used by a temporary row, a stream or a storage name was not
stored by a later commit of a row using it. Also do not let the reference
counts wrap around, which loses the string.
---
 libmsi/string.c | 19 +++++++++++--------
 libmsi/table.c  | 16 +++++++++-------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..cebb0f8 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -221,6 +221,15 @@ static void set_st_entry( string_table *st, unsigned n, char *str, uint16_t refc
         st->freeslot = n + 1;
 }
 
+/* the counts must not wrap around: a string with no reference is lost */
+static void add_st_refs( string_table *st, unsigned n, uint16_t refcount, enum StringPersistence persistence )
+{
+    uint16_t *refs = persistence == StringPersistent ?
+        &st->strings[n].persistent_refcount : &st->strings[n].nonpersistent_refcount;
+
+    *refs = MIN( 0xffff, *refs + refcount );
+}
+
 static unsigned _libmsi_id_from_string( const string_table *st, const char *buffer, unsigned *id )
 {
     size_t sz;
@@ -271,10 +280,7 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
     {
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
-            if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
-            else
-                st->strings[n].nonpersistent_refcount += refcount;
+            add_st_refs( st, n, refcount, persistence );
             return n;
         }
         n = st_find_free_entry( st );
@@ -315,10 +321,7 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
 
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
-        if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
-        else
-            st->strings[n].nonpersistent_refcount += refcount;
+        add_st_refs( st, n, refcount, persistence );
         return n;
     }
 
diff --git a/libmsi/table.c b/libmsi/table.c
index 4d05971..2331356 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1428,18 +1428,20 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             {
                 unsigned x;
 
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                {
-                    const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
-                    val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
-                      persistent ? StringPersistent : StringNonPersistent );
-                }
-                else
+                const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
+
+                if ( r == LIBMSI_RESULT_SUCCESS )
                 {
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
                 }
+
+                /* the string may be known from temporary data only */
+                val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
+                    persistent ? StringPersistent : StringNonPersistent );
+                if ( val == -1 )
+                    return LIBMSI_RESULT_OUTOFMEMORY;
             }
             else
             {
-- 
2.43.0


From e994eaed8109f83080e0317693e7a3fc4d412b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 11/85] fix: load strings of 64 KiB and more exactly

The high word of the length was taken from the reference count of the string,
which is right only for lengths below 128 KiB and a single reference. Check
the entry against the end of the pool, and the length without overflow.
---
 libmsi/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index cebb0f8..f28adf1 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -536,7 +536,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if (i + 1 >= count)
+            {
+                g_critical("string table corrupt?\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
@@ -545,7 +551,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From a70e264b0e580b5120bea7afc3f7c28de3a4aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 12/85] fix: commit to a new file that replaces the package
 once complete

A commit used to write over the package in place (unless opened in
transacted mode), ignored write and close errors, removed the package
before renaming the new one over it, and left the handle unusable and the
temporary file behind when it failed.
---
 libmsi/libmsi-database.c | 345 ++++++++++++++++++++++++++++-----------
 libmsi/msipriv.h         |   6 +-
 libmsi/table.c           |  13 +-
 3 files changed, 255 insertions(+), 109 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 3cd205b..c65226c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -18,11 +18,13 @@
  * Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA 02110-1301, USA
  */
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/stat.h>
+#include <glib/gstdio.h>
 
 #include "libmsi-enums.h"
 #include "libmsi-database.h"
@@ -117,16 +119,18 @@ free_transforms (LibmsiDatabase *db)
     }
 }
 
+static void _libmsi_database_close (LibmsiDatabase *db);
+
 static void
 libmsi_database_finalize (GObject *object)
 {
     LibmsiDatabase *self = LIBMSI_DATABASE (object);
 
-    _libmsi_database_close (self, false);
-    free_cached_tables (self);
+    _libmsi_database_close (self);
     free_transforms (self);
 
     g_free (self->path);
+    g_free (self->outpath);
 
     G_OBJECT_CLASS (libmsi_database_parent_class)->finalize (object);
 }
@@ -575,9 +579,34 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 #endif
 }
 
-LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
+/* what a database reads from a package, and the changes made to it */
+typedef struct _LibmsiContents {
+    GsfInfile *infile;
+    string_table *strings;
+    unsigned bytes_per_strref;
+    struct list tables;
+    struct list streams;
+    struct list storages;
+} LibmsiContents;
+
+static void take_contents( LibmsiDatabase *db, LibmsiContents *contents )
 {
-    TRACE("%p %d\n", db, committed);
+    contents->infile = db->infile;
+    contents->strings = db->strings;
+    contents->bytes_per_strref = db->bytes_per_strref;
+    list_init( &contents->tables );
+    list_init( &contents->streams );
+    list_init( &contents->storages );
+    list_move_tail( &contents->tables, &db->tables );
+    list_move_tail( &contents->streams, &db->streams );
+    list_move_tail( &contents->storages, &db->storages );
+    db->infile = NULL;
+    db->strings = NULL;
+}
+
+static void free_contents( LibmsiDatabase *db )
+{
+    free_cached_tables( db );
 
     if ( db->strings )
     {
@@ -591,93 +620,105 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
         db->infile = NULL;
     }
 
-    if ( db->outfile )
-    {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
-        g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
     free_streams( db );
     free_storages( db );
+}
 
-    if (db->outpath) {
-        if (!committed) {
-            unlink( db->outpath );
-            msi_free( db->outpath );
-        } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
-            msi_free( db->outpath );
-        } else {
-            msi_free( db->path );
-            db->path = db->outpath;
-        }
-    }
-    db->outpath = NULL;
-    return LIBMSI_RESULT_SUCCESS;
+static void restore_contents( LibmsiDatabase *db, LibmsiContents *contents )
+{
+    free_contents( db );
+    db->infile = contents->infile;
+    db->strings = contents->strings;
+    db->bytes_per_strref = contents->bytes_per_strref;
+    list_move_tail( &db->tables, &contents->tables );
+    list_move_tail( &db->streams, &contents->streams );
+    list_move_tail( &db->storages, &contents->storages );
 }
 
-LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
+static void _libmsi_database_end_transaction(LibmsiDatabase *db)
+{
+    g_object_unref(G_OBJECT(db->outfile));
+    db->outfile = NULL;
+    g_object_unref(G_OBJECT(db->outsink));
+    db->outsink = NULL;
+    msi_free(db->tmppath);
+    db->tmppath = NULL;
+}
+
+/* forget what was written, without touching the package */
+static void _libmsi_database_abort_transaction(LibmsiDatabase *db)
+{
+    if ( !db->outfile )
+        return;
+
+    /* closing an output with an error discards it */
+    if ( !gsf_output_error(db->outsink) )
+        gsf_output_set_error(db->outsink, 0, "aborted");
+    gsf_output_close(GSF_OUTPUT(db->outfile));
+    if ( !gsf_output_is_closed(db->outsink) )
+        gsf_output_close(db->outsink);
+    _libmsi_database_end_transaction(db);
+}
+
+static void _libmsi_database_close(LibmsiDatabase *db)
+{
+    TRACE("%p\n", db);
+
+    /* a copy that was not committed does not remain */
+    if ( db->outfile && db->outpath )
+        g_unlink( db->outpath );
+
+    _libmsi_database_abort_transaction( db );
+    free_contents( db );
+}
+
+static LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
 {
-    unsigned ret = LIBMSI_RESULT_SUCCESS;
     GsfOutput *out;
-    GsfOutfile *stg = NULL;
-    char *tmpfile = NULL;
-    char path[PATH_MAX];
+    GsfOutfile *stg;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
 
-    db->rename_outpath = false;
-    if( !db->outpath )
-    {
-        strcpy( path, db->path );
-        if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
-	{
-            strcat( path, ".tmp" );
-            db->rename_outpath = true;
-	}
-        db->outpath = strdup(path);
-    }
+    /* The new contents are written beside the package, and moved over it
+     * once they are complete.  */
+    db->tmppath = g_strconcat(db->outpath ? db->outpath : db->path, ".tmp", NULL);
 
-    TRACE("%p %s\n", db, db->outpath);
+    TRACE("%p %s\n", db, db->tmppath);
 
-    out = gsf_output_stdio_new(db->outpath, NULL);
+    out = gsf_output_stdio_new(db->tmppath, NULL);
     if (!out)
     {
-        g_warning("open file failed for %s\n", debugstr_a(db->outpath));
+        g_warning("open file failed for %s\n", debugstr_a(db->tmppath));
+        msi_free(db->tmppath);
+        db->tmppath = NULL;
         return LIBMSI_RESULT_OPEN_FAILED;
     }
     stg = gsf_outfile_msole_new(out);
-    g_object_unref(G_OBJECT(out));
     if (!stg)
     {
-        g_warning("open failed for %s\n", debugstr_a(db->outpath));
+        g_warning("open failed for %s\n", debugstr_a(db->tmppath));
+        gsf_output_set_error(out, 0, "aborted");
+        gsf_output_close(out);
+        g_object_unref(G_OBJECT(out));
+        msi_free(db->tmppath);
+        db->tmppath = NULL;
         return LIBMSI_RESULT_OPEN_FAILED;
     }
 
+    db->outsink = out;
+    db->outfile = stg;
+
     if (!gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(stg),
                                         db->flags & LIBMSI_DB_FLAGS_PATCH ?
                                         clsid_msi_patch : clsid_msi_database ))
     {
         g_warning("set guid failed\n");
-        ret = LIBMSI_RESULT_FUNCTION_FAILED;
-        goto end;
+        _libmsi_database_abort_transaction(db);
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     }
 
-    db->outfile = stg;
-    g_object_ref(G_OBJECT(db->outfile));
-
-end:
-    if (ret) {
-        if (db->outfile)
-            g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
-    if (stg)
-        g_object_unref(G_OBJECT(stg));
-    msi_free(tmpfile);
-    return ret;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static char *msi_read_text_archive(const char *path, unsigned *len)
@@ -2109,23 +2150,27 @@ libmsi_database_is_readonly (LibmsiDatabase *db)
     return db->flags & LIBMSI_DB_FLAGS_READONLY;
 }
 
-static void cache_infile_structure( LibmsiDatabase *db )
+static unsigned cache_infile_structure( LibmsiDatabase *db )
 {
     int i, n;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_SUCCESS;
 
     n = gsf_infile_num_children(db->infile);
 
-    /* TODO: error handling */
-
-    for (i = 0; i < n; i++)
+    for (i = 0; i < n && r == LIBMSI_RESULT_SUCCESS; i++)
     {
         GsfInput *in = gsf_infile_child_by_index(db->infile, i);
-        const char* name = gsf_input_name(in);
+        const char* name = in ? gsf_input_name(in) : NULL;
         const uint8_t *name8 = (const uint8_t *)name;
 
+        if (!in) {
+            g_warning("failed to open child %d of %s\n", i, debugstr_a(db->path));
+            return LIBMSI_RESULT_OPEN_FAILED;
+        }
+
         if (!name) {
             g_warn_if_reached();
+            g_object_unref(G_OBJECT(in));
             continue;
         }
         /* table streams are not in the _Streams table */
@@ -2136,45 +2181,41 @@ static void cache_infile_structure( LibmsiDatabase *db )
                 g_autofree char *decname = NULL;
 
                 decname = decode_streamname(name + 3);
-                if ( !strcmp( decname, szStringPool ) ||
-                     !strcmp( decname, szStringData ) )
-                    continue;
-
-                r = _libmsi_open_table( db, decname, false );
-                g_warn_if_fail (r == LIBMSI_RESULT_SUCCESS);
+                if ( strcmp( decname, szStringPool ) &&
+                     strcmp( decname, szStringData ) )
+                    r = _libmsi_open_table( db, decname, false );
             }
             else
-            {
                 r = msi_alloc_stream(db, name, GSF_INPUT(in));
-                g_object_unref(G_OBJECT(in));
-            }
         } else {
-            msi_open_storage(db, name);
+            r = msi_open_storage(db, name);
         }
-
+        g_object_unref(G_OBJECT(in));
     }
+
+    return r;
 }
 
-LibmsiResult _libmsi_database_open(LibmsiDatabase *db)
+static LibmsiResult _libmsi_database_open(LibmsiDatabase *db, const char *path)
 {
     GsfInput *in;
     GsfInfile *stg;
     uint8_t uuid[16];
     unsigned ret = LIBMSI_RESULT_OPEN_FAILED;
 
-    TRACE("%p %s\n", db, db->path);
+    TRACE("%p %s\n", db, path);
 
-    in = gsf_input_stdio_new(db->path, NULL);
+    in = gsf_input_stdio_new(path, NULL);
     if (!in)
     {
-        g_warning("open file failed for %s\n", debugstr_a(db->path));
+        g_warning("open file failed for %s\n", debugstr_a(path));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
     if( !stg )
     {
-        g_warning("open failed for %s\n", debugstr_a(db->path));
+        g_warning("open failed for %s\n", debugstr_a(path));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
 
@@ -2203,19 +2244,19 @@ LibmsiResult _libmsi_database_open(LibmsiDatabase *db)
     db->infile = stg;
     g_object_ref(G_OBJECT(db->infile));
 
-    cache_infile_structure( db );
+    ret = cache_infile_structure( db );
+    if( ret != LIBMSI_RESULT_SUCCESS )
+        goto end;
 
+    ret = LIBMSI_RESULT_OPEN_FAILED;
     db->strings = msi_load_string_table( db->infile, &db->bytes_per_strref );
     if( !db->strings )
         goto end;
 
     ret = LIBMSI_RESULT_SUCCESS;
 end:
-    if (ret) {
-        if (db->infile)
-            g_object_unref(G_OBJECT(db->infile));
-        db->infile = NULL;
-    }
+    if (ret)
+        free_contents( db );
     g_object_unref(G_OBJECT(stg));
     return ret;
 }
@@ -2298,15 +2339,26 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
         GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
-        gboolean is_dir = childf && gsf_infile_num_children (childf) > 0;
-        GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
+        gboolean is_dir = childf && gsf_infile_num_children (childf) >= 0;
+        GsfOutput *dest;
         gboolean ok;
 
+        if (!child)
+            return false;
+
+        dest = gsf_outfile_new_child(outf, name, is_dir);
+        if (!dest) {
+            g_object_unref(G_OBJECT(child));
+            return false;
+        }
+
         if (is_dir)
             ok = gsf_infile_copy(childf, GSF_OUTFILE(dest));
         else
             ok = gsf_input_copy(child, dest);
 
+        if (!gsf_output_close(dest))
+            ok = false;
         g_object_unref(G_OBJECT(child));
         g_object_unref(G_OBJECT(dest));
         if (!ok)
@@ -2333,7 +2385,8 @@ static unsigned commit_storage( const char *name, GsfInfile *stg, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstg));
+    if ( !gsf_output_close(GSF_OUTPUT(outstg)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstg));
     return ret;
 }
@@ -2360,11 +2413,81 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstm));
+    if ( !gsf_output_close(GSF_OUTPUT(outstm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstm));
     return ret;
 }
 
+/* force a file, or the entries of a directory, to stable storage */
+static bool sync_file( const char *path )
+{
+#ifdef G_OS_UNIX
+    int fd, r;
+
+    do
+        fd = open( path, O_RDONLY | O_CLOEXEC );
+    while (fd == -1 && errno == EINTR);
+    if (fd == -1)
+        return false;
+
+    do
+        r = fsync( fd );
+    while (r == -1 && errno == EINTR);
+    close( fd );
+    return r == 0;
+#else
+    return true;
+#endif
+}
+
+/* complete the new package file, and move it over the package */
+static unsigned _libmsi_database_replace(LibmsiDatabase *db)
+{
+    LibmsiContents old, new;
+    g_autofree char *tmppath = g_strdup(db->tmppath);
+    g_autofree char *path = g_strdup(db->outpath ? db->outpath : db->path);
+    g_autofree char *dir = g_path_get_dirname(path);
+    bool ok;
+
+    ok = gsf_output_close(GSF_OUTPUT(db->outfile));
+    if (gsf_output_error(db->outsink))
+        ok = false;
+    _libmsi_database_end_transaction(db);
+    if (!ok)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if (!sync_file( tmppath )) {
+        g_unlink( tmppath );
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
+    /* From now on the database works on the new file.  Load it before it
+     * replaces the package, so that nothing can fail afterwards.  */
+    take_contents( db, &old );
+    if (_libmsi_database_open( db, tmppath ) != LIBMSI_RESULT_SUCCESS ||
+        g_rename( tmppath, path ) != 0) {
+        restore_contents( db, &old );
+        g_unlink( tmppath );
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
+    /* free the old contents */
+    take_contents( db, &new );
+    restore_contents( db, &old );
+    restore_contents( db, &new );
+
+    sync_file( dir );
+
+    if (db->outpath) {
+        msi_free( db->path );
+        db->path = db->outpath;
+        db->outpath = NULL;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
 /**
  * libmsi_database_commit:
  * @db: a #LibmsiDatabase
@@ -2389,6 +2512,15 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     /* FIXME: lock the database */
 
+    if (!db->outfile) {
+        r = _libmsi_database_start_transaction (db);
+        if (r != LIBMSI_RESULT_SUCCESS) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                         "failed to create output file r=%08x\n", r);
+            goto end;
+        }
+    }
+
     r = msi_save_string_table (db->strings, db, &bytes_per_strref);
     if (r != LIBMSI_RESULT_SUCCESS) {
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
@@ -2417,17 +2549,24 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
         goto end;
     }
 
-    db->bytes_per_strref = bytes_per_strref;
+    r = _libmsi_database_replace (db);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to store the package r=%08x\n", r);
+        goto end;
+    }
 
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
-    _libmsi_database_open(db);
-    _libmsi_database_start_transaction(db);
 
 end:
+    /* if this fails, the next commit tries again */
+    if (r != LIBMSI_RESULT_SUCCESS)
+        _libmsi_database_abort_transaction (db);
+    if (!db->outfile)
+        _libmsi_database_start_transaction (db);
     g_object_unref(db);
 
     return r == LIBMSI_RESULT_SUCCESS;
@@ -2579,8 +2718,12 @@ init (LibmsiDatabase *self, GError **error)
     if (self->flags & LIBMSI_DB_FLAGS_CREATE) {
         self->strings = msi_init_string_table (&self->bytes_per_strref);
     } else {
-        if (_libmsi_database_open(self))
+        ret = _libmsi_database_open(self, self->path);
+        if (ret != LIBMSI_RESULT_SUCCESS) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                         "failed to open %s", self->path);
             return FALSE;
+        }
     }
 
     self->media_transform_offset = MSI_INITIAL_MEDIA_TRANSFORM_OFFSET;
@@ -2590,8 +2733,12 @@ init (LibmsiDatabase *self, GError **error)
         enum_stream_names (self->infile);
 
     ret = _libmsi_database_start_transaction (self);
+    if (ret != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                     "failed to create an output file for %s",
+                     self->outpath ? self->outpath : self->path);
 
-    return !ret;
+    return ret == LIBMSI_RESULT_SUCCESS;
 }
 
 /**
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..ac58755 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -91,11 +91,12 @@ struct _LibmsiDatabase
 
     GsfInfile *infile;
     GsfOutfile *outfile;
+    GsfOutput *outsink;
     string_table *strings;
     unsigned bytes_per_strref;
     char *path;
     char *outpath;
-    bool rename_outpath;
+    char *tmppath;
     guint flags;
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
@@ -392,9 +393,6 @@ extern char *encode_streamname(bool bTable, const char *in);
 extern char *decode_streamname(const char *in);
 
 /* database internals */
-extern LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db);
-extern LibmsiResult _libmsi_database_open(LibmsiDatabase *db);
-extern LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed);
 unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *stm );
 extern unsigned msi_get_raw_stream( LibmsiDatabase *, const char *, GsfInput **);
 void msi_destroy_stream( LibmsiDatabase *, const char * );
diff --git a/libmsi/table.c b/libmsi/table.c
index 2331356..bd1e7ff 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -344,7 +344,8 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(stm));
+    if (! gsf_output_close(GSF_OUTPUT(stm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(stm));
     return ret;
 }
@@ -2113,15 +2114,17 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
 unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_strref )
 {
     unsigned r = LIBMSI_RESULT_SUCCESS;
-    LibmsiTable *table, *table2;
+    LibmsiTable *table;
     LibmsiTable *t;
 
     TRACE("%p\n",db);
 
     /* Ensure the Tables stream is written.  */
-    get_table( db, szTables, &t );
+    r = get_table( db, szTables, &t );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
 
-    LIST_FOR_EACH_ENTRY_SAFE( table, table2, &db->tables, LibmsiTable, entry )
+    LIST_FOR_EACH_ENTRY( table, &db->tables, LibmsiTable, entry )
     {
         r = get_table( db, table->name, &t );
         if( r != LIBMSI_RESULT_SUCCESS )
@@ -2137,8 +2140,6 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
                   debugstr_a(table->name), r);
             return r;
         }
-        list_remove(&table->entry);
-        free_table(table);
     }
 
     return r;
-- 
2.43.0


From 6a42215dd9802639b9e74ce036541f0e86ac118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 13/85] fix: commit: fail on strings the code page cannot
 represent

They used to be left out of the string table, so that the cells that
refer to them read back as null.
---
 libmsi/string.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index f28adf1..ce85636 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -390,8 +390,11 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     if( *sz < len )
     {
+        msi_free(str);
         *sz = len;
         return LIBMSI_RESULT_MORE_DATA;
     }
@@ -431,7 +434,7 @@ unsigned _libmsi_id_from_string_utf8( const string_table *st, const char *str, u
     return LIBMSI_RESULT_INVALID_PARAMETER;
 }
 
-static void string_totalsize( const string_table *st, unsigned *datasize, unsigned *poolsize )
+static unsigned string_totalsize( const string_table *st, unsigned *datasize, unsigned *poolsize )
 {
     unsigned i, holesize;
     size_t len;
@@ -460,7 +463,12 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
-	    msi_free(str);
+            if( !str )
+            {
+                g_warning("%s does not exist in codepage %d\n", debugstr_a(st->strings[i].str), codepage);
+                return LIBMSI_RESULT_FUNCTION_FAILED;
+            }
+            msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
                 (*poolsize) += 4;
@@ -471,6 +479,7 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             holesize += 4;
     }
     TRACE("data %u pool %u codepage %x\n", *datasize, *poolsize, st->codepage );
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 string_table *msi_init_string_table( unsigned *bytes_per_strref )
@@ -586,7 +595,9 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
     TRACE("\n");
 
     /* construct the new table in memory first */
-    string_totalsize( st, &datasize, &poolsize );
+    r = string_totalsize( st, &datasize, &poolsize );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        goto err;
 
     TRACE("%u %u %u\n", st->maxcount, datasize, poolsize );
 
@@ -634,8 +645,8 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         r = _libmsi_string_id( st, n, data+used, &sz );
         if( r != LIBMSI_RESULT_SUCCESS )
         {
-            g_critical("failed to fetch string\n");
-            sz = 0;
+            g_warning("failed to fetch string\n");
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From 7a2b3e535f3fddaf4f2f48106de9427c4a6833c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 14/85] fix: commit: store all lasting rows of tables that hold
 temporary rows too

The stored rows were those before the first temporary one, transposed for
a table of one row, which wrote beyond the buffer.
---
 libmsi/table.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index bd1e7ff..b5795a8 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -872,7 +872,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -889,14 +889,11 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize );
@@ -906,12 +903,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
         goto err;
     }
 
-    rawsize = 0;
+    row = 0;
     for (i = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i]) continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -935,12 +932,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
-        rawsize += row_size;
+        row++;
     }
 
     TRACE("writing %d bytes\n", rawsize);
-- 
2.43.0


From 31a4996266bc3d69d3cd77555ae710d053c3c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 15/85] fix: do not take tables that cannot be read for empty
 ones

---
 libmsi/libmsi-database.c | 12 ++++--
 libmsi/table.c           | 79 ++++++++++++++++++++++++++++++----------
 2 files changed, 67 insertions(+), 24 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c65226c..34a6a28 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -400,6 +400,8 @@ unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *st
         return LIBMSI_RESULT_ACCESS_DENIED;
 
     encname = encode_streamname(false, stname);
+    if (!encname)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     LIST_FOR_EACH_ENTRY( stream, &db->streams, LibmsiStream, entry )
     {
@@ -490,20 +492,22 @@ unsigned clone_infile_stream( LibmsiDatabase *db, const char *name, GsfInput **s
         return LIBMSI_RESULT_SUCCESS;
     }
 
-    return LIBMSI_RESULT_FUNCTION_FAILED;
+    return LIBMSI_RESULT_NOT_FOUND;
 }
 
 unsigned msi_get_raw_stream( LibmsiDatabase *db, const char *stname, GsfInput **stm )
 {
-    unsigned ret = LIBMSI_RESULT_FUNCTION_FAILED;
+    unsigned ret;
     g_autofree char *decoded = NULL;
     LibmsiTransform *transform;
 
     decoded = decode_streamname(stname);
     TRACE("%s -> %s\n", debugstr_a(stname), debugstr_a(decoded));
 
-    if (clone_infile_stream( db, stname, stm ) == LIBMSI_RESULT_SUCCESS)
-        return LIBMSI_RESULT_SUCCESS;
+    *stm = NULL;
+    ret = clone_infile_stream( db, stname, stm );
+    if (ret != LIBMSI_RESULT_NOT_FOUND)
+        return ret;
 
     LIST_FOR_EACH_ENTRY( transform, &db->transforms, LibmsiTransform, entry )
     {
diff --git a/libmsi/table.c b/libmsi/table.c
index b5795a8..4ba7048 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -252,6 +252,21 @@ void enum_stream_names( GsfInfile *stg )
     }
 }
 
+/* tell a stream that is not there from one that cannot be opened */
+static bool stream_exists( GsfInfile *stg, const char *encname )
+{
+    int i, n = gsf_infile_num_children( stg );
+
+    for (i = 0; i < n; i++)
+    {
+        const char *name = gsf_infile_name_by_index( stg, i );
+
+        if (name && !strcmp( name, encname ))
+            return true;
+    }
+    return false;
+}
+
 unsigned read_stream_data( GsfInfile *stg, const char *stname,
                        uint8_t **pdata, unsigned *psz )
 {
@@ -261,20 +276,25 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     GsfInput *stm = NULL;
     char *encname;
 
+    if ( !stg )
+        return LIBMSI_RESULT_NOT_FOUND;
+
     encname = encode_streamname(true, stname);
+    if ( !encname )
+        return LIBMSI_RESULT_NOT_FOUND;
 
     TRACE("%s -> %s\n",debugstr_a(stname),debugstr_a(encname));
 
-    if ( !stg )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
     stm = gsf_infile_child_by_name(stg, encname );
-    msi_free(encname);
     if( !stm )
     {
         TRACE("open stream failed - empty table?\n");
+        if( !stream_exists( stg, encname ) )
+            ret = LIBMSI_RESULT_NOT_FOUND;
+        msi_free(encname);
         return ret;
     }
+    msi_free(encname);
 
     if( gsf_input_size(stm) >> 32 )
     {
@@ -326,6 +346,8 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
         return ret;
 
     encname = encode_streamname(true, stname );
+    if (!encname)
+        return ret;
 
     stm = gsf_outfile_new_child( db->outfile, encname, false );
     msi_free( encname );
@@ -356,15 +378,27 @@ static void msi_free_colinfo( LibmsiColumnInfo *colinfo, unsigned count )
     for (i = 0; i < count; i++) msi_free( colinfo[i].hash_table );
 }
 
-static void free_table( LibmsiTable *table )
+/* forget what was loaded of a table */
+static void unload_table( LibmsiTable *table )
 {
     unsigned i;
-    for( i=0; i<table->row_count; i++ )
+    for( i=0; table->data && i<table->row_count; i++ )
         msi_free( table->data[i] );
     msi_free( table->data );
     msi_free( table->data_persistent );
-    msi_free_colinfo( table->colinfo, table->col_count );
+    if( table->colinfo )
+        msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
+    table->data = NULL;
+    table->data_persistent = NULL;
+    table->colinfo = NULL;
+    table->row_count = 0;
+    table->col_count = 0;
+}
+
+static void free_table( LibmsiTable *table )
+{
+    unload_table( table );
     msi_free( table );
 }
 
@@ -389,15 +423,17 @@ static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnIn
 static unsigned read_table_from_storage( LibmsiDatabase *db, LibmsiTable *t, GsfInfile *stg )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize = 0, i, j, row_size, row_size_mem;
+    unsigned rawsize = 0, i, j, row_size, row_size_mem, r;
 
     TRACE("%s\n",debugstr_a(t->name));
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, db->bytes_per_strref );
     row_size_mem = msi_table_get_row_size( db, t->colinfo, t->col_count, LONG_STR_BYTES );
 
-    /* if we can't read the table, just assume that it's empty */
-    read_stream_data( stg, t->name, &rawdata, &rawsize );
+    /* a table without a stream is empty */
+    r = read_stream_data( stg, t->name, &rawdata, &rawsize );
+    if( r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_NOT_FOUND )
+        return r;
     if( !rawdata )
         return LIBMSI_RESULT_SUCCESS;
 
@@ -599,12 +635,14 @@ unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded
 static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **table_ret )
 {
     LibmsiTable *table;
+    bool added = false;
     unsigned r;
 
     /* first, see if the table is cached */
     table = find_cached_table( db, name );
     if (!table)
     {
+        added = true;
         /* nonexistent tables should be interpreted as empty tables */
         r = _libmsi_open_table( db, name, false );
         if (r)
@@ -620,17 +658,18 @@ static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **t
     }
 
     r = table_get_column_info( db, name, &table->colinfo, &table->col_count );
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = read_table_from_storage( db, table, db->infile );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
-        list_remove(&table->entry);
-        free_table( table );
-        return r;
-    }
-    r = read_table_from_storage( db, table, db->infile );
-    if (r != LIBMSI_RESULT_SUCCESS)
-    {
-        list_remove(&table->entry);
-        free_table( table );
+        /* Keep the entry of a table of the package, or a commit would
+         * leave the table out.  */
+        unload_table( table );
+        if (added)
+        {
+            list_remove(&table->entry);
+            free_table( table );
+        }
         return r;
     }
     *table_ret = table;
@@ -1169,7 +1208,7 @@ static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigne
     encname = encode_streamname( false, full_name );
     r = msi_get_raw_stream( tv->db, encname, stm );
     if( r )
-        g_critical("fetching stream %s, error = %d\n",debugstr_a(full_name), r);
+        g_warning("fetching stream %s, error = %d\n",debugstr_a(full_name), r);
 
     if (*stm)
         g_object_set_data_full (G_OBJECT (*stm), "stname", full_name, g_free);
-- 
2.43.0


From 50dbaded43130a63de6611fc04e928e6bed32400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 16/85] fix: _Streams and _Storages: report failures and
 survive them

---
 libmsi/libmsi-database.c |  9 +++--
 libmsi/storages.c        | 75 +++++++++++++++++++++--------------
 libmsi/streams.c         | 84 +++++++++++++++++++++++++---------------
 3 files changed, 104 insertions(+), 64 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 34a6a28..b4ef7b8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -218,7 +218,7 @@ unsigned msi_open_storage( LibmsiDatabase *db, const char *stname )
         if( !strcmp( stname, storage->name ) )
         {
             TRACE("found %s\n", debugstr_a(stname));
-            return r;
+            return LIBMSI_RESULT_SUCCESS;
         }
     }
 
@@ -228,8 +228,11 @@ unsigned msi_open_storage( LibmsiDatabase *db, const char *stname )
         goto done;
 
     in = gsf_infile_child_by_name(db->infile, stname);
-    if (!GSF_IS_INFILE(in))
+    if (!GSF_IS_INFILE(in)) {
+        if (in)
+            g_object_unref(G_OBJECT(in));
         goto done;
+    }
 
     storage->stg = GSF_INFILE(in);
     if (!storage->stg)
@@ -252,7 +255,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     LibmsiStorage *storage;
     GsfInfile *origstg = NULL;
     bool found = false;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..ab9c318 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -49,8 +49,9 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
@@ -114,44 +115,44 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
     STORAGE *storage;
     GsfInput *stm;
-    char *name = NULL;
-    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
+    const char *name;
+    unsigned r;
 
     TRACE("(%p, %p)\n", view, rec);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    storage = sv->storages[row];
+    if (storage && (mask & 1)) {
+        g_warning("FIXME: renaming storage via UPDATE on _Storages table\n");
+        return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
+    }
+
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (sv->storages[row]) {
-        if (mask & 1) {
-            g_warning("FIXME: renaming storage via UPDATE on _Storages table\n");
-            goto done;
-        }
-
-        storage = sv->storages[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
-    } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-    }
+    if (storage)
+        name = msi_string_lookup_id(sv->db->strings, storage->str_index);
+    else
+        name = _libmsi_record_get_string_raw(rec, 1);
     if (!name)
     {
-        r = LIBMSI_RESULT_OUTOFMEMORY;
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
     }
 
-    msi_create_storage(sv->db, name, stm);
-    storage = create_storage(sv, name);
-    if (!storage)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
-
-    sv->storages[row] = storage;
+    r = msi_create_storage(sv->db, name, stm);
+    if (r == LIBMSI_RESULT_SUCCESS && !storage)
+    {
+        storage = create_storage(sv, name);
+        if (!storage)
+            r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
+        sv->storages[row] = storage;
+    }
 
 done:
-    msi_free(name);
     g_object_unref(G_OBJECT(stm));
 
     return r;
@@ -160,6 +161,7 @@ done:
 static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
+    unsigned i, r;
 
     if (!storages_set_table_size(sv, ++sv->num_rows))
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -167,9 +169,23 @@ static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, un
     if (row == -1)
         row = sv->num_rows - 1;
 
-    /* FIXME have to readjust rows */
+    /* shift the rows to make room for the new row */
+    for (i = sv->num_rows - 1; i > row; i--)
+    {
+        sv->storages[i] = sv->storages[i - 1];
+    }
+    sv->storages[row] = NULL;
 
-    return storages_view_set_row(view, row, rec, 0);
+    r = storages_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        sv->num_rows--;
+        for (i = row; i < sv->num_rows; i++)
+            sv->storages[i] = sv->storages[i + 1];
+        sv->storages[i] = NULL;
+    }
+
+    return r;
 }
 
 static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
@@ -178,7 +194,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     const char *name;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index);
@@ -189,13 +205,14 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     msi_destroy_storage(sv->db, name);
+    msi_free(sv->storages[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->storages[i - 1] = sv->storages[i];
     }
-    sv->num_rows--;
+    sv->storages[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -276,7 +293,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
     unsigned index = (uintptr_t)*handle;
 
-    TRACE("(%d, %d): %d\n", *row, col, val);
+    TRACE("(%p, %d, %d, %p, %p)\n", view, col, val, row, handle);
 
     if (col == 0 || col > NUM_STORAGES_COLS)
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -293,7 +310,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     }
 
     *handle = (MSIITERHANDLE)(uintptr_t)++index;
-    if (index >= sv->num_rows)
+    if (index > sv->num_rows)
         return NO_MORE_ITEMS;
 
     return LIBMSI_RESULT_SUCCESS;
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..b1b3dc8 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -127,56 +127,59 @@ static unsigned streams_view_get_row( LibmsiView *view, unsigned row, LibmsiReco
 static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    STREAM *stream = NULL;
+    STREAM *stream;
     GsfInput *stm;
-    char *name = NULL;
+    const char *name;
     unsigned r;
 
     TRACE("(%p, %d, %p, %08x)\n", view, row, rec, mask);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    stream = sv->streams[row];
+    if (stream && (mask & 1)) {
+        g_warning("FIXME: renaming stream via UPDATE on _Streams table");
+        return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
+    }
+
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (sv->streams[row]) {
-        if (mask & 1) {
-            g_warning("FIXME: renaming stream via UPDATE on _Streams table");
-            goto done;
-        }
-
-        stream = sv->streams[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
-    } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-        if (!name)
-        {
-            g_warning("failed to retrieve stream name\n");
-            goto done;
-        }
-
-        stream = create_stream(sv, name, false, stm);
-    }
-
-    if (!stream)
+    if (stream)
+        name = msi_string_lookup_id(sv->db->strings, stream->str_index);
+    else
+        name = _libmsi_record_get_string_raw(rec, 1);
+    if (!name)
+    {
+        g_warning("failed to retrieve stream name\n");
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
+    }
 
     r = msi_create_stream(sv->db, name, stm);
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
         goto done;
     }
 
-    sv->streams[row] = stream;
+    if (stream)
+    {
+        if (stream->stream)
+            g_object_unref(G_OBJECT(stream->stream));
+        stream->stream = g_object_ref(G_OBJECT(stm));
+    }
+    else
+    {
+        stream = create_stream(sv, name, false, stm);
+        if (!stream)
+            r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
+        sv->streams[row] = stream;
+    }
 
 done:
-    msi_free(name);
-
     g_object_unref(G_OBJECT(stm));
 
     return r;
@@ -185,7 +188,7 @@ done:
 static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    unsigned i;
+    unsigned i, r;
 
     TRACE("(%p, %p, %d, %d)\n", view, rec, row, temporary);
 
@@ -200,8 +203,18 @@ static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, uns
     {
         sv->streams[i] = sv->streams[i - 1];
     }
+    sv->streams[row] = NULL;
 
-    return streams_view_set_row(view, row, rec, 0);
+    r = streams_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        sv->num_rows--;
+        for (i = row; i < sv->num_rows; i++)
+            sv->streams[i] = sv->streams[i + 1];
+        sv->streams[i] = NULL;
+    }
+
+    return r;
 }
 
 static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
@@ -211,7 +224,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     char *encname;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
@@ -222,14 +235,21 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     encname = encode_streamname(false, name);
+    if (!encname)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     msi_destroy_stream(sv->db, encname);
+    msi_free(encname);
+
+    if (sv->streams[row]->stream)
+        g_object_unref(G_OBJECT(sv->streams[row]->stream));
+    msi_free(sv->streams[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->streams[i - 1] = sv->streams[i];
     }
-    sv->num_rows--;
+    sv->streams[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From cb91c1f4464392f7c6ecbcadaf017657883d3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 17/85] fix: summary information: report read failures, stay
 within the data

---
 libmsi/libmsi-summary-info.c | 109 +++++++++++++++++++++++------------
 libmsi/msipriv.h             |   1 +
 2 files changed, 72 insertions(+), 38 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..a57d584 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -125,13 +125,15 @@ libmsi_summary_info_constructed (GObject *object)
     GsfInput *stm = NULL;
     unsigned r;
 
-    /* read the stream... if we fail, we'll start with an empty property set */
+    /* read the stream... if there is none, or none that makes sense, we'll
+     * start with an empty property set */
     if (self->database) {
         r = msi_get_raw_stream (self->database, szSumInfo, &stm);
         if (r == 0) {
-            load_summary_info (self, stm);
+            self->load_result = load_summary_info (self, stm);
             g_object_unref (G_OBJECT (stm));
-        }
+        } else if (r != LIBMSI_RESULT_NOT_FOUND)
+            self->load_result = r;
     }
 
     if (G_OBJECT_CLASS (libmsi_summary_info_parent_class)->constructed)
@@ -257,13 +259,14 @@ static gchar* filetime_to_string (guint64 ft)
     ft -= 134774ULL * 86400ULL;
 
     dt = g_date_time_new_from_unix_local(ft);
+    if (!dt)
+        return NULL;
 
     return g_date_time_format(dt, "%Y/%m/%d %H:%M:%S");
 }
 
-static void parse_filetime( const char *str, guint64 *ft )
+static bool parse_filetime( const char *str, guint64 *ft )
 {
-    /* set to 0, tm_isdst can make the result vary: */
     struct tm tm = { 0, };
     time_t t;
     const char *p = str;
@@ -275,35 +278,38 @@ static void parse_filetime( const char *str, guint64 *ft )
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_year = strtol( p, &end, 10 ) - 1900;
-    if (*end != '/') return;
+    if (*end != '/') return false;
     p = end + 1;
 
     tm.tm_mon = strtol( p, &end, 10 ) - 1;
-    if (*end != '/') return;
+    if (*end != '/') return false;
     p = end + 1;
 
     tm.tm_mday = strtol( p, &end, 10 );
-    if (*end != ' ') return;
+    if (*end != ' ') return false;
     p = end + 1;
 
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_hour = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return false;
     p = end + 1;
 
     tm.tm_min = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return false;
     p = end + 1;
 
     tm.tm_sec = strtol( p, &end, 10 );
 
+    /* daylight saving time applies as it does when formatting local time */
+    tm.tm_isdst = -1;
     t = mktime(&tm);
 
     /* Add number of seconds between 1601-01-01 and 1970-01-01,
      * then convert to 100 ns units.
      */
     *ft = (t + 134774ULL * 86400ULL) * 10000000ULL;
+    return true;
 }
 
 /* FIXME: doesn't deal with endian conversion */
@@ -311,9 +317,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 {
     unsigned type;
     unsigned i;
-    LibmsiOLEVariant *property;
+    LibmsiOLEVariant *property, val;
     uint32_t idofs, len;
-    char *str = NULL;
+    char *str;
     gboolean valid;
 
     idofs = 8;
@@ -321,8 +327,15 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     /* now set all the properties */
     for( i = 0; i < cProperties; i++ )
     {
+        if( sz < 8 || idofs > sz - 8 )
+        {
+            g_critical("not enough data for property %d\n", i);
+            break;
+        }
+
         valid = TRUE;
-        int propid = read_dword(data, &idofs);
+        str = NULL;
+        unsigned propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
 
@@ -341,14 +354,14 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         property = &prop[ propid ];
 
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz - 4 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
         }
 
         proptype = read_dword(data, &dwOffset);
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz - 4 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
@@ -358,21 +371,21 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         {
         case OLEVT_I2:
         case OLEVT_I4:
-            property->intval = read_dword(data, &dwOffset);
+            val.intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
-            if( dwOffset + 8 > sz )
+            if( dwOffset > sz - 8 )
             {
                 g_critical("not enough data for type %d %d \n", dwOffset, sz);
                 valid = FALSE;
                 break;
             }
-            property->filetime = read_dword(data, &dwOffset);
-            property->filetime |= (guint64)read_dword(data, &dwOffset) << 32;
+            val.filetime = read_dword(data, &dwOffset);
+            val.filetime |= (guint64)read_dword(data, &dwOffset) << 32;
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
@@ -383,7 +396,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             str[ len - 1 ] = 0;
             break;
         default:
-            g_warn_if_reached ();
+            g_critical("unknown property type %d\n", proptype);
+            valid = FALSE;
+            break;
         }
 
         if (valid == FALSE) {
@@ -392,16 +407,13 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         /* check the type is the same as we expect */
         if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR)
-           property->strval = str;
+           val.strval = str;
         else if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
-            g_return_if_fail(str != NULL);
             if( type == OLEVT_I2 || type == OLEVT_I4) {
-                property->intval = atoi( str );
-            } else if( type == OLEVT_FILETIME) {
-                parse_filetime( str, &property->filetime );
-            } else {
+                val.intval = atoi( str );
+            } else if( type != OLEVT_FILETIME || !parse_filetime( str, &val.filetime )) {
                 g_critical("invalid type, it can't be converted\n");
                 msi_free(str);
                 break;
@@ -416,13 +428,16 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* Now we now the type is valid, store it */
+        free_prop( property );
+        *property = val;
         property->vt = proptype;
     }
 }
 
+/* fails only if the stream can't be read, not if it makes no sense */
 static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
 {
-    unsigned ret = LIBMSI_RESULT_FUNCTION_FAILED;
+    unsigned ret = LIBMSI_RESULT_SUCCESS;
     uint8_t *data = NULL;
     unsigned ofs, dwOffset;
     unsigned cbSection, cProperties;
@@ -431,14 +446,17 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     TRACE("%p %p\n", si, stm);
 
     sz = gsf_input_size(stm);
-    if (!sz)
+    if (sz < 28 + 20)
         return ret;
-    data = g_try_malloc(gsf_input_size(stm));
+    data = g_try_malloc(sz);
     if (!data)
         return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
 
     if (!gsf_input_read(stm, sz, data))
+    {
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
+    }
 
     /* process the set header */
     ofs = 0;
@@ -457,7 +475,13 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
 
     /* seek to the location of the section */
     ofs += 16;
-    ofs = dwOffset = read_dword(data, &ofs);
+    dwOffset = read_dword(data, &ofs);
+    if( dwOffset > sz || sz - dwOffset < 8 )
+    {
+        g_critical("property set section out of range\n");
+        goto done;
+    }
+    ofs = dwOffset;
 
     /* read the section itself */
     cbSection = read_dword( data, &ofs );
@@ -469,13 +493,16 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
         goto done;
     }
 
+    if( cbSection > sz - dwOffset )
+        cbSection = sz - dwOffset;
+
     /* read all the data in one go */
     read_properties_from_data( si->property,
                                &data[dwOffset],
                                cbSection, cProperties );
 
 done:
-    msi_free( data );
+    g_free( data );
     return ret;
 }
 
@@ -743,7 +770,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -768,7 +795,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -793,7 +820,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
@@ -986,7 +1013,8 @@ static unsigned parse_prop( const char *prop, const char *value, unsigned *pid,
     case LIBMSI_PROPERTY_LASTPRINTED:
     case LIBMSI_PROPERTY_CREATED_TM:
     case LIBMSI_PROPERTY_LASTSAVED_TM:
-        parse_filetime( value, ft_value );
+        if (!parse_filetime( value, ft_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         break;
 
     case LIBMSI_PROPERTY_SUBJECT:
@@ -1037,10 +1065,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
@@ -1141,5 +1168,11 @@ libmsi_summary_info_new (LibmsiDatabase *database, unsigned update_count,
                          "update-count", update_count,
                          NULL);
 
+    if (self->load_result != LIBMSI_RESULT_SUCCESS) {
+        g_set_error_literal (error, LIBMSI_RESULT_ERROR, self->load_result, G_STRFUNC);
+        g_object_unref (self);
+        return NULL;
+    }
+
     return self;
 }
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index ac58755..4a6b3d4 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -305,6 +305,7 @@ struct _LibmsiSummaryInfo
 
     LibmsiDatabase *database;
     unsigned update_count;
+    unsigned load_result;
     LibmsiOLEVariant property[MSI_MAX_PROPS];
 };
 
-- 
2.43.0


From e50fe7eee72ab82c67c00fa1cb92f82721fe2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 18/85] fix: queries: report streams that cannot be read

---
 libmsi/libmsi-query.c | 23 ++++++++++++++++-------
 libmsi/table.c        |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..faec01d 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -322,7 +322,18 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
                 g_object_unref(G_OBJECT(stm));
             }
             else
+            {
                 g_warning("failed to get stream\n");
+                /* cells without a stream are null */
+                if (ret != LIBMSI_RESULT_SUCCESS &&
+                    ret != LIBMSI_RESULT_NOT_FOUND &&
+                    ret != LIBMSI_RESULT_INVALID_DATA)
+                {
+                    g_object_unref(*rec);
+                    *rec = NULL;
+                    return ret;
+                }
+            }
 
             continue;
         }
@@ -434,12 +445,10 @@ libmsi_query_close (LibmsiQuery *query, GError **error)
 
     g_object_ref(query);
     view = query->view;
-    if( !view )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-    if( !view->ops->close )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
-    ret = view->ops->close( view );
+    if( view && view->ops->close )
+        ret = view->ops->close( view );
+    else
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(query);
 
     /* FIXME: raise error when it happens */
@@ -597,7 +606,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
diff --git a/libmsi/table.c b/libmsi/table.c
index 4ba7048..f2efe45 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1206,7 +1206,7 @@ static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigne
     }
 
     encname = encode_streamname( false, full_name );
-    r = msi_get_raw_stream( tv->db, encname, stm );
+    r = encname ? msi_get_raw_stream( tv->db, encname, stm ) : LIBMSI_RESULT_NOT_FOUND;
     if( r )
         g_warning("fetching stream %s, error = %d\n",debugstr_a(full_name), r);
 
-- 
2.43.0


From 04e7c2d85d9cd383ac58f2bd46afa0277121159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 19/85] fix: skipping in a stream: do not fail on success

---
 libmsi/libmsi-istream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..b612041 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -114,7 +114,7 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR))
         return -1;
 
     return count;
-- 
2.43.0


From cabb3e527b3df1c0cce7ca70a911e9ed948127e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 20/85] fix: streams of records set an error when they fail

---
 libmsi/libmsi-istream.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index b612041..93d23d4 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -51,7 +51,12 @@ libmsi_seek (GSeekable *seekable, goffset offset,
 {
     g_return_val_if_fail (LIBMSI_IS_ISTREAM(seekable), FALSE);
 
-    return !gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type);
+    if (gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT, "Invalid seek request");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static gboolean
@@ -99,8 +104,10 @@ input_stream_read (GInputStream  *stream,
         return 0;
 
     count = MIN(count, remaining);
-    if (!gsf_input_read (self->input, count, buffer))
+    if (!gsf_input_read (self->input, count, buffer)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_FAILED, "Failed to read stream data");
         return -1;
+    }
 
     return count;
 }
@@ -114,8 +121,10 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_FAILED, "Failed to skip stream data");
         return -1;
+    }
 
     return count;
 }
-- 
2.43.0


From c3fb3f724dfe9e8f214d6076819115ceaf6964fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 21/85] fix: setting a record's stream from too short a stream
 sets an error

---
 libmsi/libmsi-record.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..e560748 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -614,8 +614,15 @@ libmsi_record_set_stream (LibmsiRecord *rec, guint field,
     guint8 *data = g_malloc (count);
 
     if (!g_input_stream_read_all (input, data, count, &bytes_read,
-                                  cancellable, error) ||
-        bytes_read != count) {
+                                  cancellable, error)) {
+        g_free (data);
+        return FALSE;
+    }
+
+    if (bytes_read != count) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_PARTIAL_INPUT,
+                     "Stream ended after %" G_GSIZE_FORMAT " of %" G_GSIZE_FORMAT " bytes",
+                     bytes_read, count);
         g_free (data);
         return FALSE;
     }
-- 
2.43.0


From 01aca7376aa31a06c8269ec1f8916af55ead2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 22/85] fix: DROP TABLE of a temporary table

---
 libmsi/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index f2efe45..62af75a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2045,7 +2045,8 @@ static unsigned table_view_drop(LibmsiView *view)
     for (row = 0; row < tv->table->row_count; row++)
         table_destroy_row_stream( tv, row );
 
-    for (i = tv->table->col_count - 1; i >= 0; i--)
+    /* the columns of temporary tables are not in _Columns */
+    for (i = tv->table->persistent ? tv->table->col_count - 1 : -1; i >= 0; i--)
     {
         r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
                                 tv->table->colinfo[i].number);
-- 
2.43.0


From a74c336ab13627fd099fb4a47ffb5458dc20bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 23/85] fix: ORDER BY sorts by all of its columns

---
 libmsi/where.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 6ea578d..f2ea313 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -971,7 +971,7 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
 
     column = columns;
 
-    for (i = 0; i < count; i++)
+    for (i = 0; i < count; i++, column = column->next)
     {
         orderinfo->columns[i].unparsed.column = column->column;
         orderinfo->columns[i].unparsed.table = column->table;
-- 
2.43.0


From b3b6db9eb9d556e72bf687bba11aee18725120eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 24/85] fix: a failed INSERT does not leave a row behind

---
 libmsi/table.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 62af75a..83ad926 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1729,6 +1729,8 @@ static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
     return high + 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1766,7 +1768,11 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
+    r = table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
-- 
2.43.0


From f94433c459169a892e9839daaa0ab6665d310d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 25/85] fix: adding a stream survives a failing query

---
 libmsi/table.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 83ad926..42bb1fa 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1281,21 +1281,28 @@ static unsigned _libmsi_add_stream( LibmsiDatabase *db, const char *name, GsfInp
         return LIBMSI_RESULT_OUTOFMEMORY;
 
     if (!libmsi_record_set_string(rec, 1, name))
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = _libmsi_record_set_gsf_input( rec, 2, data );
     if ( r != LIBMSI_RESULT_SUCCESS )
        goto err;
 
     query = libmsi_query_new (db, insert, &err);
-    if (err)
-        r = err->code;
-    g_clear_error (&err);
+    if (!query)
+    {
+        r = err ? err->code : LIBMSI_RESULT_FUNCTION_FAILED;
+        g_clear_error (&err);
+        goto err;
+    }
 
     r = _libmsi_query_execute( query, rec );
 
 err:
-    g_object_unref(query);
+    if (query)
+        g_object_unref(query);
     g_object_unref(rec);
     return r;
 }
-- 
2.43.0


From 82a1b7ad219755917c35da34706b063c09b07020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 26/85] fix: ALTER TABLE: keep the other temporary columns
 intact

Reloading the columns of a table lost the references of its temporary
columns and whether they are temporary, and removing a column that was
not the last one left the table without columns.
---
 libmsi/table.c | 109 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 21 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 42bb1fa..9d0e9d9 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -746,6 +746,7 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
                                                     sizeof(uint16_t) ) - (1 << 15);
             colinfo[col - 1].offset = 0;
             colinfo[col - 1].ref_count = 0;
+            colinfo[col - 1].temporary = !!(colinfo[col - 1].type & MSITYPE_TEMPORARY);
             colinfo[col - 1].hash_table = NULL;
         }
         n++;
@@ -987,30 +988,78 @@ err:
     return r;
 }
 
-static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
+/* find a column by name, most likely at a known place */
+static const LibmsiColumnInfo *find_column( const LibmsiColumnInfo *colinfo, unsigned count,
+                                            const char *name, unsigned place )
 {
+    unsigned i;
+
+    if (place < count && !strcmp( colinfo[place].colname, name ))
+        return &colinfo[place];
+
+    for (i = 0; i < count; i++)
+        if (!strcmp( colinfo[i].colname, name ))
+            return &colinfo[i];
+
+    return NULL;
+}
+
+/* reload the columns of a table after _Columns changed, and keep the data
+ * and the references of those that are still there */
+static unsigned msi_update_table_columns( LibmsiDatabase *db, const char *name )
+{
+    const LibmsiColumnInfo *old;
+    LibmsiColumnInfo *colinfo = NULL;
     LibmsiTable *table;
-    unsigned size, offset, old_count;
-    unsigned n;
+    unsigned size, count = 0;
+    unsigned n, i, r;
+    uint8_t *data;
 
     table = find_cached_table( db, name );
-    old_count = table->col_count;
-    msi_free_colinfo( table->colinfo, table->col_count );
-    msi_free( table->colinfo );
-    table->colinfo = NULL;
+    if (!table)
+        return LIBMSI_RESULT_SUCCESS;
 
-    table_get_column_info( db, name, &table->colinfo, &table->col_count );
-    if (!table->col_count) return;
+    r = table_get_column_info( db, name, &colinfo, &count );
+    if (!count)
+    {
+        /* the table lost its last column */
+        msi_free_colinfo( table->colinfo, table->col_count );
+        msi_free( table->colinfo );
+        table->colinfo = NULL;
+        table->col_count = 0;
+        return LIBMSI_RESULT_SUCCESS;
+    }
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
 
-    size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
-    offset = table->colinfo[table->col_count - 1].offset;
+    size = msi_table_get_row_size( db, colinfo, count, LONG_STR_BYTES );
 
     for ( n = 0; n < table->row_count; n++ )
     {
-        table->data[n] = msi_realloc( table->data[n], size );
-        if (old_count < table->col_count)
-            memset( &table->data[n][offset], 0, size - offset );
+        data = msi_alloc_zero( size );
+        for (i = 0; i < count; i++)
+        {
+            old = find_column( table->colinfo, table->col_count, colinfo[i].colname, i );
+            if (old)
+                memcpy( data + colinfo[i].offset, table->data[n] + old->offset,
+                        bytes_per_column( db, old, LONG_STR_BYTES ) );
+        }
+        msi_free( table->data[n] );
+        table->data[n] = data;
     }
+
+    for (i = 0; i < count; i++)
+    {
+        old = find_column( table->colinfo, table->col_count, colinfo[i].colname, i );
+        if (old)
+            colinfo[i].ref_count = old->ref_count;
+    }
+
+    msi_free_colinfo( table->colinfo, table->col_count );
+    msi_free( table->colinfo );
+    table->colinfo = colinfo;
+    table->col_count = count;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 /* try to find the table name in the _Tables table */
@@ -1936,7 +1985,7 @@ static unsigned table_view_remove_column(LibmsiView *view, const char *table, un
     LibmsiTableView *tv = (LibmsiTableView*)view;
     LibmsiRecord *rec = NULL;
     LibmsiView *columns = NULL;
-    unsigned row, r;
+    unsigned row, r, id, val;
 
     rec = libmsi_record_new(2);
     if (!rec)
@@ -1955,11 +2004,28 @@ static unsigned table_view_remove_column(LibmsiView *view, const char *table, un
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
+    r = table_view_fetch_int(columns, row, 1, &id);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
     r = table_view_delete_row(columns, row);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    msi_update_table_columns(tv->db, table);
+    /* leave no gap in the numbers of the columns */
+    for (row = 0; table_view_fetch_int(columns, row, 1, &val) == LIBMSI_RESULT_SUCCESS; row++)
+    {
+        if (val != id)
+            continue;
+
+        r = table_view_fetch_int(columns, row, 2, &val);
+        if (r == LIBMSI_RESULT_SUCCESS && val - (1 << 15) > number)
+            r = table_view_set_int((LibmsiTableView *)columns, row, 2, val - 1);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
+    }
+
+    r = msi_update_table_columns(tv->db, table);
 
 done:
     g_object_unref(rec);
@@ -1971,11 +2037,13 @@ static unsigned table_view_release(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
     int ref = tv->table->ref_count;
-    unsigned i, r;
+    unsigned r;
+    int i;
 
     TRACE("%p %d\n", view, ref);
 
-    for (i = 0; i < tv->table->col_count; i++)
+    /* the columns are renumbered as they are removed */
+    for (i = tv->table->col_count - 1; i >= 0; i--)
     {
         if (tv->table->colinfo[i].type & MSITYPE_TEMPORARY)
         {
@@ -2025,9 +2093,8 @@ static unsigned table_view_add_column(LibmsiView *view, const char *table, unsig
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    msi_update_table_columns(tv->db, table);
-
-    if (!hold)
+    r = msi_update_table_columns(tv->db, table);
+    if (r != LIBMSI_RESULT_SUCCESS || !hold)
         goto done;
 
     msitable = find_cached_table(tv->db, table);
-- 
2.43.0


From 10a452d1dd2aa235fd0ecf6b58afeb9608747ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 27/85] fix: FREE: remove a temporary table from _Tables, keep
 lasting tables loaded

The name of the table stayed in _Tables, so that it could not be created
again, and an emptied table of the package that was released got the
rows of the package back.
---
 libmsi/table.c | 74 ++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 9d0e9d9..ba9a925 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2033,6 +2033,34 @@ done:
     return r;
 }
 
+/* remove a table from _Tables */
+static unsigned table_remove_name(LibmsiTableView *tv)
+{
+    LibmsiView *tables = NULL;
+    LibmsiRecord *rec = NULL;
+    unsigned r, row;
+
+    rec = libmsi_record_new(1);
+    if (!rec)
+        return LIBMSI_RESULT_OUTOFMEMORY;
+
+    libmsi_record_set_string(rec, 1, tv->name);
+
+    r = table_view_create(tv->db, szTables, &tables);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_object_unref(rec);
+        return r;
+    }
+
+    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = table_view_delete_row(tables, row);
+
+    g_object_unref(rec);
+    tables->ops->delete(tables);
+    return r;
+}
+
 static unsigned table_view_release(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -2059,17 +2087,15 @@ static unsigned table_view_release(LibmsiView *view)
     }
 
     ref = __sync_sub_and_fetch(&tv->table->ref_count, 1);
-    if (ref == 0)
-    {
-        if (!tv->table->row_count)
-        {
-            list_remove(&tv->table->entry);
-            free_table(tv->table);
-            table_view_delete(view);
-        }
-    }
+    if (ref || tv->table->row_count || tv->table->persistent != LIBMSI_CONDITION_FALSE)
+        return 1;
 
-    return ref;
+    /* nobody holds the temporary table any more */
+    table_remove_name(tv);
+    list_remove(&tv->table->entry);
+    free_table(tv->table);
+    table_view_delete(view);
+    return 0;
 }
 
 static unsigned table_view_add_column(LibmsiView *view, const char *table, unsigned number,
@@ -2115,8 +2141,6 @@ done:
 static unsigned table_view_drop(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    LibmsiView *tables = NULL;
-    LibmsiRecord *rec = NULL;
     unsigned r, row;
     int i;
 
@@ -2134,34 +2158,14 @@ static unsigned table_view_drop(LibmsiView *view)
             return r;
     }
 
-    rec = libmsi_record_new(1);
-    if (!rec)
-        return LIBMSI_RESULT_OUTOFMEMORY;
-
-    libmsi_record_set_string(rec, 1, tv->name);
-
-    r = table_view_create(tv->db, szTables, &tables);
-    if (r != LIBMSI_RESULT_SUCCESS) {
-        g_object_unref(rec);
-        return r;
-    }
-
-    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
+    r = table_remove_name(tv);
     if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
-
-    r = table_view_delete_row(tables, row);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
+        return r;
 
     list_remove(&tv->table->entry);
     free_table(tv->table);
 
-done:
-    g_object_unref(rec);
-    tables->ops->delete(tables);
-
-    return r;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static const LibmsiViewOps table_ops =
-- 
2.43.0


From ff5de21bc10d96d4a4822fcfe07ca17e0f8ac0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 28/85] fix: store the keys and streams of a row before its
 other fields

An UPDATE whose stream could not be stored left some columns changed.
---
 libmsi/table.c | 163 ++++++++++++++++++++++++++++---------------------
 1 file changed, 93 insertions(+), 70 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index ba9a925..7c3cc13 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1459,10 +1459,91 @@ static unsigned table_validate_fields( LibmsiTableView *tv, LibmsiRecord *rec, u
     return LIBMSI_RESULT_SUCCESS;
 }
 
+static unsigned table_set_field( LibmsiTableView *tv, unsigned row, unsigned i, LibmsiRecord *rec )
+{
+    unsigned val, r;
+    bool persistent;
+
+    persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
+                 (tv->table->data_persistent[row]);
+    /* FIXME: should we allow updating keys? */
+
+    val = 0;
+    if ( !libmsi_record_is_null( rec, i + 1 ) )
+    {
+        r = get_table_value_from_record (tv, rec, i + 1, &val);
+        if ( MSITYPE_IS_BINARY(tv->columns[ i ].type) )
+        {
+            GsfInput *stm;
+            char *stname;
+
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return LIBMSI_RESULT_FUNCTION_FAILED;
+
+            r = _libmsi_record_get_gsf_input( rec, i + 1, &stm );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+
+            r = msi_stream_name( tv, row, &stname );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+            {
+                g_object_unref(G_OBJECT(stm));
+                return r;
+            }
+
+            r = _libmsi_add_stream( tv->db, stname, stm );
+            g_object_unref(G_OBJECT(stm));
+            msi_free ( stname );
+
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+        }
+        else if ( tv->columns[i].type & MSITYPE_STRING )
+        {
+            unsigned x;
+
+            const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
+
+            if ( r == LIBMSI_RESULT_SUCCESS )
+            {
+                table_view_fetch_int(&tv->view, row, i + 1, &x);
+                if (val == x)
+                    return LIBMSI_RESULT_SUCCESS;
+            }
+
+            /* the string may be known from temporary data only */
+            val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
+                persistent ? StringPersistent : StringNonPersistent );
+            if ( val == -1 )
+                return LIBMSI_RESULT_OUTOFMEMORY;
+        }
+        else
+        {
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return LIBMSI_RESULT_FUNCTION_FAILED;
+        }
+    }
+    else if ( MSITYPE_IS_BINARY(tv->columns[i].type) )
+        table_destroy_row_stream( tv, row );
+
+    return table_view_set_int( tv, row, i+1, val );
+}
+
+/* The keys name the stream of a row, and storing the stream may fail:
+ * that is the order to store the fields in.  */
+static unsigned table_field_order( unsigned type )
+{
+    if ( type & MSITYPE_KEY )
+        return 0;
+    if ( MSITYPE_IS_BINARY(type) )
+        return 1;
+    return 2;
+}
+
 static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned i, val, r;
+    unsigned i, order, r;
 
     if ( !tv->table )
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -1475,81 +1556,23 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
-    for ( i = 0; i < tv->num_cols; i++ )
+    for ( order = 0; order < 3; order++ )
     {
-        bool persistent;
-
-        /* only update the fields specified in the mask */
-        if ( i < 32 ? !(mask & (1u<<i)) : mask != ~0u )
-            continue;
-
-        persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
-                     (tv->table->data_persistent[row]);
-        /* FIXME: should we allow updating keys? */
-
-        val = 0;
-        if ( !libmsi_record_is_null( rec, i + 1 ) )
+        for ( i = 0; i < tv->num_cols; i++ )
         {
-            r = get_table_value_from_record (tv, rec, i + 1, &val);
-            if ( MSITYPE_IS_BINARY(tv->columns[ i ].type) )
-            {
-                GsfInput *stm;
-                char *stname;
-
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                    return LIBMSI_RESULT_FUNCTION_FAILED;
-
-                r = _libmsi_record_get_gsf_input( rec, i + 1, &stm );
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                    return r;
-
-                r = msi_stream_name( tv, row, &stname );
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                {
-                    g_object_unref(G_OBJECT(stm));
-                    return r;
-                }
-
-                r = _libmsi_add_stream( tv->db, stname, stm );
-                g_object_unref(G_OBJECT(stm));
-                msi_free ( stname );
-
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                    return r;
-            }
-            else if ( tv->columns[i].type & MSITYPE_STRING )
-            {
-                unsigned x;
-
-                const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
+            /* only update the fields specified in the mask */
+            if ( i < 32 ? !(mask & (1u<<i)) : mask != ~0u )
+                continue;
 
-                if ( r == LIBMSI_RESULT_SUCCESS )
-                {
-                    table_view_fetch_int(&tv->view, row, i + 1, &x);
-                    if (val == x)
-                        continue;
-                }
+            if ( table_field_order( tv->columns[i].type ) != order )
+                continue;
 
-                /* the string may be known from temporary data only */
-                val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
-                    persistent ? StringPersistent : StringNonPersistent );
-                if ( val == -1 )
-                    return LIBMSI_RESULT_OUTOFMEMORY;
-            }
-            else
-            {
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                    return LIBMSI_RESULT_FUNCTION_FAILED;
-            }
+            r = table_set_field( tv, row, i, rec );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
         }
-        else if ( MSITYPE_IS_BINARY(tv->columns[i].type) )
-            table_destroy_row_stream( tv, row );
-
-        r = table_view_set_int( tv, row, i+1, val );
-        if ( r != LIBMSI_RESULT_SUCCESS )
-            break;
     }
-    return r;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static unsigned table_create_new_row( LibmsiView *view, unsigned *num, bool temporary )
-- 
2.43.0


From ec4fcefa9cc0a50c10e1e4a288f663ac5783b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 29/85] fix: streams of records start at their beginning

After a failed commit the streams of the package were read from where
the commit left them, that is, they seemed to be empty.
---
 libmsi/libmsi-istream.c | 7 ++++++-
 libmsi/libmsi-record.c  | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index 93d23d4..ecce9ac 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -155,7 +155,12 @@ G_GNUC_INTERNAL LibmsiIStream *
 libmsi_istream_new (GsfInput *input)
 {
     GsfInput *dup = gsf_input_dup (input, NULL);
-    g_return_val_if_fail (dup, NULL);
+
+    if (!dup)
+        return NULL;
+
+    /* the position of the input is that of its last reader */
+    gsf_input_seek (dup, 0, G_SEEK_SET);
 
     LibmsiIStream *self = g_object_new (LIBMSI_TYPE_ISTREAM, NULL);
     self->input = dup;
diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index e560748..828d88c 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -677,6 +677,7 @@ _libmsi_record_get_stream (LibmsiRecord *rec, unsigned field, GError **error)
 GInputStream *
 libmsi_record_get_stream (LibmsiRecord *rec, guint field)
 {
+    LibmsiIStream *stream;
     GsfInput *stm;
 
     g_return_val_if_fail (LIBMSI_IS_RECORD (rec), NULL);
@@ -685,7 +686,8 @@ libmsi_record_get_stream (LibmsiRecord *rec, guint field)
     if (!stm)
         return NULL;
 
-    return G_INPUT_STREAM (libmsi_istream_new (stm));
+    stream = libmsi_istream_new (stm);
+    return stream ? G_INPUT_STREAM (stream) : NULL;
 }
 
 unsigned _libmsi_record_set_gsf_input( LibmsiRecord *rec, unsigned field, GsfInput *stm )
-- 
2.43.0


From dc38440dc452eda9b5a245130457dfea58febc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 30/85] fix: do not open packages that cannot be read in full

libgsf leaves out the parts of a compound file's directory that it fails
to read, and takes whatever is in memory for the allocation table of the
small blocks.  A commit would have made the loss permanent.
---
 libmsi/libmsi-database.c | 84 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index b4ef7b8..b34a1f6 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -25,6 +25,7 @@
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <glib/gstdio.h>
+#include <gsf/gsf-input-impl.h>
 
 #include "libmsi-enums.h"
 #include "libmsi-database.h"
@@ -2203,8 +2204,83 @@ static unsigned cache_infile_structure( LibmsiDatabase *db )
     return r;
 }
 
+/*
+ * An input that remembers that it could not be read.  gsf_infile_msole_new()
+ * and gsf_infile_child_by_index() do without the parts of the directory and of
+ * the small blocks that they cannot read, and succeed.
+ */
+typedef struct {
+    GsfInput parent;
+    GsfInput *source;
+    bool failed;
+} LibmsiCheckedInput;
+
+typedef struct {
+    GsfInputClass parent_class;
+} LibmsiCheckedInputClass;
+
+static GType libmsi_checked_input_get_type (void);
+
+G_DEFINE_TYPE (LibmsiCheckedInput, libmsi_checked_input, GSF_INPUT_TYPE)
+
+static GsfInput *checked_input_dup (GsfInput *input, GError **error)
+{
+    return NULL;
+}
+
+static const guint8 *checked_input_read (GsfInput *input, size_t size, guint8 *buffer)
+{
+    LibmsiCheckedInput *self = (LibmsiCheckedInput *)input;
+    const guint8 *data = NULL;
+
+    if (!gsf_input_seek (self->source, input->cur_offset, G_SEEK_SET))
+        data = gsf_input_read (self->source, size, buffer);
+    if (!data)
+        self->failed = true;
+
+    return data;
+}
+
+static gboolean checked_input_seek (GsfInput *input, gsf_off_t offset, GSeekType whence)
+{
+    return FALSE;
+}
+
+static void checked_input_finalize (GObject *object)
+{
+    g_object_unref (((LibmsiCheckedInput *)object)->source);
+    G_OBJECT_CLASS (libmsi_checked_input_parent_class)->finalize (object);
+}
+
+static void libmsi_checked_input_init (LibmsiCheckedInput *self)
+{
+}
+
+static void libmsi_checked_input_class_init (LibmsiCheckedInputClass *klass)
+{
+    GsfInputClass *input_class = (GsfInputClass *)klass;
+
+    G_OBJECT_CLASS (klass)->finalize = checked_input_finalize;
+    input_class->Dup = checked_input_dup;
+    input_class->Read = checked_input_read;
+    input_class->Seek = checked_input_seek;
+}
+
+/* takes the source */
+static LibmsiCheckedInput *checked_input_new (GsfInput *source)
+{
+    LibmsiCheckedInput *self = g_object_new (libmsi_checked_input_get_type (), NULL);
+
+    self->source = source;
+    gsf_input_set_size (GSF_INPUT (self), gsf_input_size (source));
+    gsf_input_set_name (GSF_INPUT (self), gsf_input_name (source));
+
+    return self;
+}
+
 static LibmsiResult _libmsi_database_open(LibmsiDatabase *db, const char *path)
 {
+    LibmsiCheckedInput *checked;
     GsfInput *in;
     GsfInfile *stg;
     uint8_t uuid[16];
@@ -2218,10 +2294,11 @@ static LibmsiResult _libmsi_database_open(LibmsiDatabase *db, const char *path)
         g_warning("open file failed for %s\n", debugstr_a(path));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
-    stg = gsf_infile_msole_new( in, NULL );
-    g_object_unref(G_OBJECT(in));
+    checked = checked_input_new(in);
+    stg = gsf_infile_msole_new( GSF_INPUT(checked), NULL );
     if( !stg )
     {
+        g_object_unref(G_OBJECT(checked));
         g_warning("open failed for %s\n", debugstr_a(path));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
@@ -2257,7 +2334,7 @@ static LibmsiResult _libmsi_database_open(LibmsiDatabase *db, const char *path)
 
     ret = LIBMSI_RESULT_OPEN_FAILED;
     db->strings = msi_load_string_table( db->infile, &db->bytes_per_strref );
-    if( !db->strings )
+    if( !db->strings || checked->failed )
         goto end;
 
     ret = LIBMSI_RESULT_SUCCESS;
@@ -2265,6 +2342,7 @@ end:
     if (ret)
         free_contents( db );
     g_object_unref(G_OBJECT(stg));
+    g_object_unref(G_OBJECT(checked));
     return ret;
 }
 
-- 
2.43.0


From 3ed955bce03e207999004f6ae475fe794f7df200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 31/85] fix: read from the right place after a failed read

The position of the file is unknown after a read error, but libgsf does
not seek when it believes to be at the right place already.
---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index b34a1f6..6ca6317 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2236,7 +2236,12 @@ static const guint8 *checked_input_read (GsfInput *input, size_t size, guint8 *b
     if (!gsf_input_seek (self->source, input->cur_offset, G_SEEK_SET))
         data = gsf_input_read (self->source, size, buffer);
     if (!data)
+    {
         self->failed = true;
+        /* The file is not where the source believes it to be any more, and
+         * seeks to that place would do nothing.  */
+        gsf_input_seek (self->source, gsf_input_tell (self->source) ? 0 : 1, G_SEEK_SET);
+    }
 
     return data;
 }
-- 
2.43.0


From 43074aab078cade7aad94823a682df74bb4ce268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:35 +0000
Subject: [PATCH 32/85] fix: CREATE and DROP TABLE: do not stop half-way if the
 package cannot be read

A commit then stored a table without columns, which breaks the package.
---
 libmsi/table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index 7c3cc13..8e5b45d 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -782,6 +782,11 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    /* do not find out half-way through that this cannot be read */
+    r = get_table( db, szColumns, &table );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
     table = msi_alloc( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
     if( !table )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -2164,11 +2169,17 @@ done:
 static unsigned table_view_drop(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
+    LibmsiTable *tables;
     unsigned r, row;
     int i;
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
+    /* do not find out half-way through that this cannot be read */
+    r = get_table(tv->db, szTables, &tables);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
     for (row = 0; row < tv->table->row_count; row++)
         table_destroy_row_stream( tv, row );
 
-- 
2.43.0


From 055ffe5ea196fd71a29a28ec57bf04e94d64b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 33/85] fix: executing SELECT DISTINCT again forgets the rows
 of the execution before

---
 libmsi/distinct.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..b3f1c3c 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -110,6 +110,11 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    /* forget the rows of an earlier execution */
+    msi_free( dv->translation );
+    dv->translation = NULL;
+    dv->row_count = 0;
+
     r = dv->table->ops->execute( dv->table, record );
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
-- 
2.43.0


From 7b371380b1ed40a1f2e1cc9b89fa839223378a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 34/85] fix: refuse names of tables, streams and storages that
 packages cannot hold

---
 libmsi/libmsi-database.c |  7 +++++++
 libmsi/msipriv.h         |  1 +
 libmsi/table.c           | 28 +++++++++++++++++++++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6ca6317..acf1389 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -260,6 +260,8 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
+    if (!stream_name_fits(stname))
+        return LIBMSI_RESULT_INVALID_PARAMETER;
 
     LIST_FOR_EACH_ENTRY( storage, &db->storages, LibmsiStorage, entry )
     {
@@ -406,6 +408,11 @@ unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *st
     encname = encode_streamname(false, stname);
     if (!encname)
         return LIBMSI_RESULT_FUNCTION_FAILED;
+    if (!stream_name_fits(encname))
+    {
+        msi_free(encname);
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+    }
 
     LIST_FOR_EACH_ENTRY( stream, &db->streams, LibmsiStream, entry )
     {
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 4a6b3d4..a2e5205 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -391,6 +391,7 @@ extern bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRec
 /* stream internals */
 extern void enum_stream_names( GsfInfile *stg );
 extern char *encode_streamname(bool bTable, const char *in);
+extern bool stream_name_fits(const char *encname);
 extern char *decode_streamname(const char *in);
 
 /* database internals */
diff --git a/libmsi/table.c b/libmsi/table.c
index 8e5b45d..e6a779a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -170,11 +170,24 @@ char *encode_streamname(bool bTable, const char *in)
             *p++ = ch;
         }
     }
-    g_critical("Failed to encode stream name (%s)\n",debugstr_a(in));
+    g_warning("Failed to encode stream name (%s)\n",debugstr_a(in));
     msi_free( out );
     return NULL;
 }
 
+/* whether a package can hold a stream or storage of this (encoded) name */
+bool stream_name_fits(const char *encname)
+{
+    unsigned count = 0;
+    const char *p;
+
+    if( !g_utf8_validate( encname, -1, NULL ) )
+        return false;
+    for( p = encname; *p; p = g_utf8_next_char( p ) )
+        count += g_utf8_get_char( p ) > 0xffff ? 2 : 1;
+    return count && count <= MAX_STREAM_NAME;
+}
+
 static int mime2utf(int x)
 {
     if( x<10 )
@@ -782,6 +795,19 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    if( persistent != LIBMSI_CONDITION_FALSE )
+    {
+        char *encname = encode_streamname( true, name );
+        bool fits = encname && stream_name_fits( encname );
+
+        msi_free( encname );
+        if( !fits )
+        {
+            g_warning("no package can hold a table called %s\n", debugstr_a(name));
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+        }
+    }
+
     /* do not find out half-way through that this cannot be read */
     r = get_table( db, szColumns, &table );
     if (r != LIBMSI_RESULT_SUCCESS)
-- 
2.43.0


From 992d61a0f23c13f65b007e343a4c33eea0d4c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 35/85] fix: primary keys of unknown tables: return NULL

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index acf1389..5e82bd3 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2753,7 +2753,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
-- 
2.43.0


From ac191f6815810adc263637f069004a8841df9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 36/85] fix: applying a transform that is no compound file
 fails

---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 5e82bd3..3dbb997 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2375,6 +2375,11 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if (!stg)
+    {
+        g_warning("open failed for transform %s\n", debugstr_a(szTransformFile));
+        return LIBMSI_RESULT_OPEN_FAILED;
+    }
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
-- 
2.43.0


From 5a145ce22bca2fd752ed692e19195a9bbf3a543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 37/85] fix: export: write everything or fail

---
 libmsi/libmsi-database.c | 135 ++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 50 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 3dbb997..3fa50e8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1261,10 +1261,21 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     }
 
     *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
+    if (!*str)
+        goto end;
+
+    in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
+    if (!in)
+        goto end;
+
     file = g_file_get_child (table_dir, *str);
     out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
-    in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
-    spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
+    if (!out)
+        goto end;
+
+    spliced = g_output_stream_splice (out, in,
+                                      G_OUTPUT_STREAM_SPLICE_CLOSE_TARGET,
+                                      NULL, error);
 
 end:
     g_clear_error (&err);
@@ -1276,8 +1287,29 @@ end:
         g_object_unref (in);
 
     return spliced != -1;
+}
 
+static bool msi_export_write_len (int fd, const char *data, size_t len)
+{
+    while (len > 0) {
+        ssize_t n = write (fd, data, len);
+
+        if (n < 0 && errno == EINTR)
+            continue;
+        if (n <= 0)
+            return false;
+        data += n;
+        len -= n;
+    }
+
+    return true;
+}
+
+static bool msi_export_write (int fd, const char *data)
+{
+    return msi_export_write_len (fd, data, strlen (data));
 }
+
 static unsigned msi_export_record(int fd, LibmsiRecord *row,
                                   unsigned start, GFile *table_dir,
                                   GError **error)
@@ -1288,12 +1320,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
 
     count = libmsi_record_get_field_count (row);
     for (i = start; i <= count; i++) {
-        char *str;
+        char *str = NULL;
 
         _libmsi_record_get_gsf_input (row, i, &in);
         if (in) {
-            if (!msi_export_stream (in, table_dir, &str, error))
+            if (!msi_export_stream (in, table_dir, &str, error)) {
+                g_free (str);
                 goto end;
+            }
             g_object_unref (in);
             in = NULL;
         } else {
@@ -1302,16 +1336,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
                 goto end;
         }
 
-        /* TODO full_write */
-        if (write (fd, str, strlen (str)) != strlen (str)) {
+        if (!msi_export_write (fd, str)) {
             g_free (str);
             goto end;
         }
 
         g_free (str);
 
-        const char *sep = (i < count) ? "\t" : "\r\n";
-        if (write (fd, sep, strlen (sep)) != strlen (sep))
+        if (!msi_export_write (fd, (i < count) ? "\t" : "\r\n"))
             goto end;
     }
 
@@ -1342,12 +1374,10 @@ static LibmsiResult msi_export_forcecodepage( int fd, unsigned codepage )
 {
     static const char fmt[] = "\r\n\r\n%u\t_ForceCodepage\r\n";
     char data[sizeof(fmt) + 10];
-    unsigned sz;
 
     sprintf( data, fmt, codepage );
 
-    sz = strlen(data) + 1;
-    if (write( fd, data, sz ) != sz)
+    if (!msi_export_write_len( fd, data, strlen(data) + 1 ))
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1360,14 +1390,12 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
     LibmsiResult result = LIBMSI_RESULT_FUNCTION_FAILED;
     LibmsiSummaryInfo *si = libmsi_summary_info_new (db, 0, error);
     gchar *str = NULL;
-    gssize sz;
     int i;
 
     if (!si)
         goto end;
 
-    sz = strlen (header);
-    if (write (fd, header, sz) != sz)
+    if (!msi_export_write (fd, header))
         goto end;
 
     for (i = 0; i < MSI_MAX_PROPS; i++)
@@ -1376,8 +1404,8 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             if (!val)
                 goto end;
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
-            sz = strlen (str);
-            if (write (fd, str, sz) != sz)
+            g_free (val);
+            if (!msi_export_write (fd, str))
                 goto end;
             g_free (str);
             str = NULL;
@@ -1410,45 +1438,52 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
     }
 
     r = _libmsi_query_open( db, &view, query, table );
-    if (r == LIBMSI_RESULT_SUCCESS)
-    {
-        /* write out row 1, the column names */
-        r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
-        if (r == LIBMSI_RESULT_SUCCESS)
-        {
-            msi_export_record( fd, rec, 1, NULL, error);
-            g_object_unref(rec);
-        }
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
 
-        /* write out row 2, the column types */
-        r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
-        if (r == LIBMSI_RESULT_SUCCESS)
-        {
-            msi_export_record( fd, rec, 1, NULL, error);
-            g_object_unref(rec);
-        }
+    ExportRow export = {
+        .fd = fd,
+        .table_dir = g_file_new_for_path (table),
+        .error = error
+    };
 
-        /* write out row 3, the table name + keys */
-        r = _libmsi_database_get_primary_keys( db, table, &rec );
-        if (r == LIBMSI_RESULT_SUCCESS)
-        {
-            libmsi_record_set_string( rec, 0, table );
-            msi_export_record( fd, rec, 0, NULL, error);
-            g_object_unref(rec);
-        }
+    /* write out row 1, the column names */
+    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
 
-        /* write out row 4 onwards, the data */
-        ExportRow export = {
-            .fd = fd,
-            .table_dir = g_file_new_for_path (table),
-            .error = error
-        };
-        r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
+    r = msi_export_record( fd, rec, 1, NULL, error);
+    g_object_unref(rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
 
-        g_object_unref (export.table_dir);
-        g_object_unref (view);
-    }
+    /* write out row 2, the column types */
+    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
 
+    r = msi_export_record( fd, rec, 1, NULL, error);
+    g_object_unref(rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
+
+    /* write out row 3, the table name + keys */
+    r = _libmsi_database_get_primary_keys( db, table, &rec );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
+
+    libmsi_record_set_string( rec, 0, table );
+    r = msi_export_record( fd, rec, 0, NULL, error);
+    g_object_unref(rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto end;
+
+    /* write out row 4 onwards, the data */
+    r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
+
+end:
+    g_object_unref (export.table_dir);
+    g_object_unref (view);
     return r;
 }
 
-- 
2.43.0


From c5f8ae4b1770b411471e086f1b403d27321a12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 38/85] fix: export: do not free the error of a failed
 directory twice

---
 libmsi/libmsi-database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 3fa50e8..9552df4 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1257,6 +1257,7 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     if (!g_file_make_directory_with_parents (table_dir, NULL, &err) &&
         !g_error_matches (err, G_IO_ERROR, G_IO_ERROR_EXISTS)) {
         g_propagate_error (error, err);
+        err = NULL;
         goto end;
     }
 
-- 
2.43.0


From 1b8b3f4541521b10532727569867ed2b0ea8824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 39/85] fix: export and import: keep tabs and line ends that
 are part of the text

---
 libmsi/libmsi-database.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 9552df4..6f2c8d8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -785,11 +785,13 @@ static void msi_parse_line(char **line, char ***entries, unsigned *num_entries,
 
         while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
         {
-            if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
+            switch (*ptr)
             {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
+            case '\0': *ptr = '\n'; break; /* convert embedded nulls to \n */
+            /* separators that are part of the text */
+            case '\x10': *ptr = '\t'; break;
+            case '\x11': *ptr = '\r'; break;
+            case '\x19': *ptr = '\n'; break;
             }
             ptr++;
             chars_left--;
@@ -1311,6 +1313,19 @@ static bool msi_export_write (int fd, const char *data)
     return msi_export_write_len (fd, data, strlen (data));
 }
 
+/* tabs and line ends separate fields and records, so the ones that
+ * are part of the text are replaced as archive files have them */
+static void msi_export_escape (char *str)
+{
+    for (; *str; str++) {
+        switch (*str) {
+        case '\t': *str = '\x10'; break;
+        case '\r': *str = '\x11'; break;
+        case '\n': *str = '\x19'; break;
+        }
+    }
+}
+
 static unsigned msi_export_record(int fd, LibmsiRecord *row,
                                   unsigned start, GFile *table_dir,
                                   GError **error)
@@ -1337,6 +1352,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
                 goto end;
         }
 
+        msi_export_escape (str);
         if (!msi_export_write (fd, str)) {
             g_free (str);
             goto end;
@@ -1404,6 +1420,7 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             gchar *val = summary_info_as_string (si, i);
             if (!val)
                 goto end;
+            msi_export_escape (val);
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
             g_free (val);
             if (!msi_export_write (fd, str))
-- 
2.43.0


From c27b6bc06723ecf55ba298a5dfbe0450a1477aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 40/85] fix: import: refuse archives with missing fields, keys
 or types

---
 libmsi/libmsi-database.c     | 79 +++++++++++++++++++-----------------
 libmsi/libmsi-summary-info.c |  4 ++
 2 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6f2c8d8..4348fa3 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -744,7 +744,7 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
@@ -839,15 +839,14 @@ static char *msi_build_createsql_prelude(char *table)
 
 static char *msi_build_createsql_columns(char **columns_data, char **types, unsigned num_columns)
 {
-    char *columns;
-    char *p;
+    GString *columns;
     const char *type;
-    unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
+    unsigned i, len;
+    char *ptr;
+    char size[14], extra[30];
 
     static const char column_fmt[] = "`%s` %s%s%s%s ";
-    static const char size_fmt[] = "(%s)";
+    static const char size_fmt[] = "(%u)";
     static const char type_char[] = "CHAR";
     static const char type_int[] = "INT";
     static const char type_long[] = "LONG";
@@ -855,21 +854,15 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     static const char type_notnull[] = " NOT NULL";
     static const char localizable[] = " LOCALIZABLE";
 
-    columns = msi_alloc_zero(sql_size * sizeof(char));
-    if (!columns)
-        return NULL;
+    columns = g_string_new(NULL);
 
     for (i = 0; i < num_columns; i++)
     {
         type = NULL;
-        comma[1] = size[0] = extra[0] = '\0';
-
-        if (i == num_columns - 1)
-            comma[0] = '\0';
-        else
-            comma[0] = ',';
+        size[0] = extra[0] = '\0';
 
-        ptr = &types[i][1];
+        /* an empty type is an unknown one */
+        ptr = types[i][0] ? &types[i][1] : types[i];
         len = atol(ptr);
         extra[0] = '\0';
 
@@ -881,14 +874,14 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             case 'L':
                 strcat(extra, localizable);
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                sprintf(size, size_fmt, len);
                 break;
             case 's':
                 strcpy(extra, type_notnull);
                 /* fall through */
             case 'S':
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                sprintf(size, size_fmt, len);
                 break;
             case 'i':
                 strcpy(extra, type_notnull);
@@ -901,7 +894,7 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 else
                 {
                     g_warning("invalid int width %u\n", len);
-                    msi_free(columns);
+                    g_string_free(columns, TRUE);
                     return NULL;
                 }
                 break;
@@ -913,25 +906,15 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 break;
             default:
                 g_critical("Unknown type: %c\n", types[i][0]);
-                msi_free(columns);
+                g_string_free(columns, TRUE);
                 return NULL;
         }
 
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
-        sql_size += strlen(expanded);
-
-        p = msi_realloc(columns, sql_size * sizeof(char));
-        if (!p)
-        {
-            msi_free(columns);
-            return NULL;
-        }
-        columns = p;
-
-        strcat(columns, expanded);
+        g_string_append_printf(columns, column_fmt, columns_data[i], type, size, extra,
+                               i == num_columns - 1 ? "" : ",");
     }
 
-    return columns;
+    return g_string_free(columns, FALSE);
 }
 
 static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys)
@@ -944,6 +927,9 @@ static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys
     static const char key_fmt[] = "`%s`, ";
     static const char postlude_fmt[] = "PRIMARY KEY %s)";
 
+    if (num_keys == 0)
+        return NULL;
+
     for (i = 0, size = 1; i < num_keys; i++)
         size += strlen(key_fmt) + strlen(primary_keys[i]) - 2;
 
@@ -1015,7 +1001,7 @@ done:
     if (view)
         g_object_unref(view);
     msi_free(prelude);
-    msi_free(columns_sql);
+    g_free(columns_sql);
     msi_free(postlude);
     msi_free(create_sql);
     return r;
@@ -1049,7 +1035,10 @@ static unsigned construct_record(unsigned num_columns, char **types,
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
+                    {
+                        g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
                 }
                 break;
             default:
@@ -1077,7 +1066,14 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
 
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
+
+    /* the columns of the archive are those of the table */
+    if (num_cols != num_columns)
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
 
     while (num_rows > 0)
     {
@@ -1103,7 +1099,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     }
 
 done:
-    msi_free(view);
+    view->ops->delete(view);
     return r;
 }
 
@@ -1111,6 +1107,7 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
 {
     unsigned r = LIBMSI_RESULT_OUTOFMEMORY;
     unsigned len, i;
+    unsigned num_fields;
     unsigned num_labels = 0;
     unsigned num_types = 0;
     unsigned num_columns = 0;
@@ -1160,9 +1157,15 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        msi_parse_line( &ptr, &records[num_records], &num_fields, &len );
 
         num_records++;
+        if (num_fields < num_columns)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index a57d584..3ac3d06 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1043,6 +1043,10 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
     unsigned i, j;
     LibmsiSummaryInfo *si;
 
+    /* pairs of an id and a value */
+    if (num_columns % 2)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     si = libmsi_summary_info_new (db, num_records * (num_columns / 2), NULL);
     if (!si)
     {
-- 
2.43.0


From d316e05a070df0274fe6c31ab1779da6b8d88e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 41/85] fix: queries that are open when their table goes or the
 database is committed fail instead of using freed memory

---
 libmsi/libmsi-database.c |  1 +
 libmsi/libmsi-query.c    | 18 +++++++---
 libmsi/msipriv.h         |  2 ++
 libmsi/table.c           | 77 ++++++++++++++++++++++++++++++++--------
 4 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 4348fa3..a0c408f 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2634,6 +2634,7 @@ static unsigned _libmsi_database_replace(LibmsiDatabase *db)
     take_contents( db, &new );
     restore_contents( db, &old );
     restore_contents( db, &new );
+    db->generation++;
 
     sync_file( dir );
 
diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index faec01d..7967e29 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -138,6 +138,7 @@ init (LibmsiQuery *self, GError **error)
 {
     unsigned r;
 
+    self->generation = self->database->generation;
     r = _libmsi_parse_sql (self->database, self->query, &self->view, &self->mem);
 
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -371,6 +372,15 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* The contents a query works on are gone after the database was committed. */
+static LibmsiView *query_view(LibmsiQuery *query)
+{
+    if( query->generation != query->database->generation )
+        return NULL;
+
+    return query->view;
+}
+
 LibmsiResult _libmsi_query_fetch(LibmsiQuery *query, LibmsiRecord **prec)
 {
     LibmsiView *view;
@@ -378,7 +388,7 @@ LibmsiResult _libmsi_query_fetch(LibmsiQuery *query, LibmsiRecord **prec)
 
     TRACE("%p %p\n", query, prec );
 
-    view = query->view;
+    view = query_view( query );
     if( !view )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
@@ -444,7 +454,7 @@ libmsi_query_close (LibmsiQuery *query, GError **error)
     g_return_val_if_fail (!error || *error == NULL, FALSE);
 
     g_object_ref(query);
-    view = query->view;
+    view = query_view( query );
     if( view && view->ops->close )
         ret = view->ops->close( view );
     else
@@ -464,7 +474,7 @@ LibmsiResult _libmsi_query_execute(LibmsiQuery *query, LibmsiRecord *rec )
 
     TRACE("%p %p\n", query, rec);
 
-    view = query->view;
+    view = query_view( query );
     if( !view )
         return LIBMSI_RESULT_FUNCTION_FAILED;
     if( !view->ops->execute )
@@ -557,7 +567,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 {
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED, i, count = 0, type;
     LibmsiRecord *rec;
-    LibmsiView *view = query->view;
+    LibmsiView *view = query_view( query );
     const char *name;
     bool temporary;
 
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index a2e5205..4b47708 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -98,6 +98,7 @@ struct _LibmsiDatabase
     char *outpath;
     char *tmppath;
     guint flags;
+    unsigned generation; /* of the contents: a commit loads new ones */
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
     struct list tables;
@@ -115,6 +116,7 @@ struct _LibmsiQuery
     LibmsiView *view;
     unsigned row;
     LibmsiDatabase *database;
+    unsigned generation;
     gchar *query;
     struct list mem;
 };
diff --git a/libmsi/table.c b/libmsi/table.c
index e6a779a..cbc0af4 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -61,9 +61,22 @@ struct _LibmsiTable
     unsigned col_count;
     LibmsiCondition persistent;
     int ref_count;
+    struct list views; /* that work on this table */
     char name[1];
 };
 
+typedef struct _LibmsiTableView
+{
+    LibmsiView        view;
+    LibmsiDatabase   *db;
+    LibmsiTable      *table;    /* NULL once the table is gone */
+    struct list       entry;    /* in the views of the table */
+    LibmsiColumnInfo *columns;
+    unsigned           num_cols;
+    unsigned           row_size;
+    char          name[1];
+} LibmsiTableView;
+
 /* information for default tables */
 static const char szTables[]  = "_Tables";
 static const char szTable[]   = "Table";
@@ -391,10 +404,22 @@ static void msi_free_colinfo( LibmsiColumnInfo *colinfo, unsigned count )
     for (i = 0; i < count; i++) msi_free( colinfo[i].hash_table );
 }
 
-/* forget what was loaded of a table */
+/* forget what was loaded of a table; views that are open on it end */
 static void unload_table( LibmsiTable *table )
 {
     unsigned i;
+
+    while( !list_empty( &table->views ) )
+    {
+        LibmsiTableView *tv = LIST_ENTRY( list_head( &table->views ), LibmsiTableView, entry );
+
+        list_remove( &tv->entry );
+        tv->table = NULL;
+        tv->columns = NULL;
+        tv->num_cols = 0;
+        tv->row_size = 0;
+    }
+
     for( i=0; table->data && i<table->row_count; i++ )
         msi_free( table->data[i] );
     msi_free( table->data );
@@ -636,6 +661,7 @@ unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     table->persistent = LIBMSI_CONDITION_TRUE;
+    list_init( &table->views );
     strcpy( table->name, name );
 
     if (!strcmp( name, szTables ) || !strcmp( name, szColumns ))
@@ -824,6 +850,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
     table->colinfo = NULL;
     table->col_count = 0;
     table->persistent = persistent;
+    list_init( &table->views );
     strcpy( table->name, name );
 
     for( col = col_info; col; col = col->next )
@@ -1035,6 +1062,19 @@ static const LibmsiColumnInfo *find_column( const LibmsiColumnInfo *colinfo, uns
     return NULL;
 }
 
+/* let the open views of a table follow changes of its columns */
+static void update_views( LibmsiDatabase *db, LibmsiTable *table )
+{
+    LibmsiTableView *tv;
+
+    LIST_FOR_EACH_ENTRY( tv, &table->views, LibmsiTableView, entry )
+    {
+        tv->columns = table->colinfo;
+        tv->num_cols = table->col_count;
+        tv->row_size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
+    }
+}
+
 /* reload the columns of a table after _Columns changed, and keep the data
  * and the references of those that are still there */
 static unsigned msi_update_table_columns( LibmsiDatabase *db, const char *name )
@@ -1058,6 +1098,7 @@ static unsigned msi_update_table_columns( LibmsiDatabase *db, const char *name )
         msi_free( table->colinfo );
         table->colinfo = NULL;
         table->col_count = 0;
+        update_views( db, table );
         return LIBMSI_RESULT_SUCCESS;
     }
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -1090,6 +1131,7 @@ static unsigned msi_update_table_columns( LibmsiDatabase *db, const char *name )
     msi_free( table->colinfo );
     table->colinfo = colinfo;
     table->col_count = count;
+    update_views( db, table );
     return LIBMSI_RESULT_SUCCESS;
 }
 
@@ -1128,17 +1170,6 @@ bool table_view_exists( LibmsiDatabase *db, const char *name )
 
 /* below is the query interface to a table */
 
-typedef struct _LibmsiTableView
-{
-    LibmsiView        view;
-    LibmsiDatabase   *db;
-    LibmsiTable      *table;
-    LibmsiColumnInfo *columns;
-    unsigned           num_cols;
-    unsigned           row_size;
-    char          name[1];
-} LibmsiTableView;
-
 static unsigned table_view_fetch_int( LibmsiView *view, unsigned row, unsigned col, unsigned *val )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1671,6 +1702,9 @@ static unsigned table_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("%p %p\n", tv, record);
 
+    if( !tv->table )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     TRACE("There are %d columns\n", tv->num_cols );
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1848,6 +1882,9 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     TRACE("%p %p %s\n", tv, rec, temporary ? "true" : "false" );
 
+    if( !tv->table )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     /* check that the key is unique - can we find a matching row? */
     r = table_validate_new( tv, rec, NULL );
     if( r != LIBMSI_RESULT_SUCCESS )
@@ -1931,6 +1968,8 @@ static unsigned table_view_delete( LibmsiView *view )
 
     TRACE("%p\n", view );
 
+    if( tv->table )
+        list_remove( &tv->entry );
     tv->table = NULL;
     tv->columns = NULL;
 
@@ -2023,6 +2062,9 @@ static unsigned table_view_add_ref(LibmsiView *view)
     LibmsiTableView *tv = (LibmsiTableView*)view;
     unsigned i;
 
+    if (!tv->table)
+        return 0;
+
     TRACE("%p %d\n", view, tv->table->ref_count);
 
     for (i = 0; i < tv->table->col_count; i++)
@@ -2118,10 +2160,13 @@ static unsigned table_remove_name(LibmsiTableView *tv)
 static unsigned table_view_release(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    int ref = tv->table->ref_count;
     unsigned r;
-    int i;
+    int ref, i;
 
+    if (!tv->table)
+        return 1;
+
+    ref = tv->table->ref_count;
     TRACE("%p %d\n", view, ref);
 
     /* the columns are renumbered as they are removed */
@@ -2199,6 +2244,9 @@ static unsigned table_view_drop(LibmsiView *view)
     unsigned r, row;
     int i;
 
+    if (!tv->table)
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
     /* do not find out half-way through that this cannot be read */
@@ -2278,6 +2326,7 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
     TRACE("table %p found with %d columns\n", tv->table, tv->table->col_count);
 
     /* fill the structure */
+    list_add_tail( &tv->table->views, &tv->entry );
     tv->view.ops = &table_ops;
     tv->db = db;
     tv->columns = tv->table->colinfo;
-- 
2.43.0


From 1ad8c492eaeddad20e7c27b52eb94d16192af839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 42/85] fix: import: an archive of empty summary information is
 fine

---
 libmsi/libmsi-summary-info.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 3ac3d06..0bc645b 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1039,7 +1039,7 @@ static unsigned parse_prop( const char *prop, const char *value, unsigned *pid,
 
 unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records, int num_columns )
 {
-    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
+    unsigned r = LIBMSI_RESULT_SUCCESS;
     unsigned i, j;
     LibmsiSummaryInfo *si;
 
-- 
2.43.0


From ceb1c5cb5d93c97e19f57d1fdc80c3ac6f521535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 43/85] fix: export: binary cells are written below the table's
 directory only

---
 libmsi/libmsi-database.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index a0c408f..6ebfc3f 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1270,6 +1270,10 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     if (!*str)
         goto end;
 
+    /* it is to be a file of that directory */
+    if (strchr (*str, '/'))
+        goto end;
+
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
     if (!in)
         goto end;
-- 
2.43.0


From ea11dc9eca3c76f76776abb21e5428bb61b9ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 44/85] fix: export and merge tables whose names are SQL
 keywords

---
 libmsi/libmsi-database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6ebfc3f..e9cea1d 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1448,7 +1448,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
@@ -1738,7 +1738,7 @@ static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
         return NULL;
 
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
     for (i = 1; i <= count; i++)
     {
@@ -1959,7 +1959,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -2009,7 +2009,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
-- 
2.43.0


From 680a76b202f9621cdb2f8e5a3151a2390b14fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 45/85] fix: keep the code page of a package that has no
 strings

---
 libmsi/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index ce85636..a694033 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -507,13 +507,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
     if( r != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    if ( (poolsize > 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
+    if ( (poolsize >= 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
         *bytes_per_strref = LONG_STR_BYTES;
     else
         *bytes_per_strref = sizeof(uint16_t);
 
     count = poolsize/4;
-    if( poolsize > 4 )
+    if( poolsize >= 4 )
         codepage = GUINT16_FROM_LE(pool[0]) | ( (GUINT16_FROM_LE(pool[1]) & ~0x8000) << 16 );
     else
         codepage = CP_ACP;
-- 
2.43.0


From 9bc0cad0ab91455b250558bed0d8605674c9eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 46/85] fix: notice when a file that becomes a stream cannot be
 read

---
 libmsi/libmsi-record.c | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 828d88c..16b0194 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -475,39 +475,18 @@ libmsi_record_set_string (LibmsiRecord *rec, unsigned field, const char *szValue
 /* read the data in a file into a memory-backed GsfInput */
 static unsigned _libmsi_addstream_from_file(const char *szFile, GsfInput **pstm)
 {
-    GsfInput *stm;
-    guint8 *data;
-    off_t sz;
+    char *data;
+    gsize sz;
 
-    stm = gsf_input_stdio_new(szFile, NULL);
-    if (!stm)
+    if (!g_file_get_contents(szFile, &data, &sz, NULL))
     {
         g_warning("open file failed for %s\n", debugstr_a(szFile));
         return LIBMSI_RESULT_OPEN_FAILED;
     }
 
-    sz = gsf_input_size(stm);
-    if (sz == 0)
-    {
-        data = g_malloc(1);
-    }
-    else
-    {
-        data = g_try_malloc(sz);
-        if (!data)
-            return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
-
-        if (!gsf_input_read(stm, sz, data))
-        {
-            g_object_unref(G_OBJECT(stm));
-            return LIBMSI_RESULT_FUNCTION_FAILED;
-        }
-    }
-
-    g_object_unref(G_OBJECT(stm));
-    *pstm = gsf_input_memory_new(data, sz, true);
+    *pstm = gsf_input_memory_new((guint8 *)data, sz, true);
 
-    TRACE("read %s, %" PRIdMAX " bytes into GsfInput %p\n", debugstr_a(szFile), sz, *pstm);
+    TRACE("read %s, %" G_GSIZE_FORMAT " bytes into GsfInput %p\n", debugstr_a(szFile), sz, *pstm);
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From ac0394f099e38191e9fb2f35df1fec6f582b9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 47/85] fix: free what a merge gathered when it fails

---
 libmsi/libmsi-database.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e9cea1d..8d50dae 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1610,7 +1610,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_NAMES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1635,7 +1638,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_TYPES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1690,7 +1696,8 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
 done:
     g_object_unref(dbrec);
-    g_object_unref(mergerec);
+    if (mergerec)
+        g_object_unref(mergerec);
 
     return r;
 }
@@ -1814,8 +1821,10 @@ done:
         g_critical("%s", err->message);
     g_clear_error(&err);
     msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    if (row)
+        g_object_unref(row);
+    if (dbview)
+        g_object_unref(dbview);
     return r;
 }
 
@@ -1914,7 +1923,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -1968,6 +1977,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
 
+    list_init(&table->rows);
+
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
@@ -1984,8 +1995,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -1994,7 +2003,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    if (mergeview)
+        g_object_unref(mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -2048,8 +2058,10 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    if (dbview)
+        g_object_unref(dbview);
+    if (mergeview)
+        g_object_unref(mergeview);
     return r;
 }
 
@@ -2167,11 +2179,11 @@ libmsi_database_merge (LibmsiDatabase *db,
 
     g_object_ref(db);
     g_object_ref(merge);
+    conflicts = false;
     r = gather_merge_data(db, merge, &tabledata);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    conflicts = false;
     LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
     {
         if (table->numconflicts)
@@ -2191,6 +2203,10 @@ libmsi_database_merge (LibmsiDatabase *db,
         }
     }
 
+    if (conflicts)
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+done:
     LIST_FOR_EACH_SAFE(item, cursor, &tabledata)
     {
         table = LIST_ENTRY(item, MERGETABLE, entry);
@@ -2198,10 +2214,6 @@ libmsi_database_merge (LibmsiDatabase *db,
         free_merge_table(table);
     }
 
-    if (conflicts)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
-
-done:
     if (r != LIBMSI_RESULT_SUCCESS)
         g_set_error (error, LIBMSI_RESULT_ERROR, r, G_STRFUNC);
     g_object_unref(db);
-- 
2.43.0


From 7f91fd33282e162626f31aa7268a09daa115b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 48/85] fix: compare merged rows with any kind of key

---
 libmsi/libmsi-database.c | 96 +++++-----------------------------------
 libmsi/query.h           |  2 +
 libmsi/table.c           | 24 ++++++++++
 3 files changed, 37 insertions(+), 85 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 8d50dae..20cdc28 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1582,7 +1582,6 @@ typedef struct _tagMERGEDATA
     LibmsiDatabase *db;
     LibmsiDatabase *merge;
     MERGETABLE *curtable;
-    LibmsiQuery *curview;
     struct list *tabledata;
 } MERGEDATA;
 
@@ -1702,95 +1701,27 @@ done:
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
-{
-    LibmsiRecord *colnames;
-    char *str;
-    unsigned r, i = 0;
-    int cmp;
-
-    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
-
-    do
-    {
-        str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
-        msi_free(str);
-    } while (cmp);
-
-    g_object_unref(colnames);
-
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
-
-    return str;
-}
-
-static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
-{
-    GString *query;
-    char *val;
-    const char *key;
-    LibmsiRecord *keys;
-    unsigned r, i, count;
-
-    r = _libmsi_database_get_primary_keys(merge, table, &keys);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
-
-    query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
-    count = libmsi_record_get_field_count(keys);
-    for (i = 1; i <= count; i++)
-    {
-        key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
-
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
-        else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
-    }
-
-    g_object_unref(keys);
-    return  g_string_free (query, FALSE);
-}
-
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
 {
     MERGEDATA *data = param;
     MERGETABLE *table = data->curtable;
     MERGEROW *mergerow;
-    LibmsiQuery *dbview = NULL;
+    LibmsiView *tv = NULL;
     LibmsiRecord *row = NULL;
-    char *query = NULL;
-    unsigned r = LIBMSI_RESULT_SUCCESS;
-    GError *err = NULL;
+    unsigned r = LIBMSI_RESULT_SUCCESS, n;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
-        if (!query)
-            return LIBMSI_RESULT_OUTOFMEMORY;
-
-        dbview = libmsi_query_new(data->db, query, &err);
-        if (err)
-            goto done;
-
-        r = _libmsi_query_execute(dbview, NULL);
+        r = table_view_create(data->db, table->name, &tv);
         if (r != LIBMSI_RESULT_SUCCESS)
-            goto done;
+            return r;
 
-        r = _libmsi_query_fetch(dbview, &row);
-        if (r == LIBMSI_RESULT_SUCCESS && !_libmsi_record_compare(rec, row))
+        r = table_view_find_record(tv, rec, &n);
+        if (r == LIBMSI_RESULT_SUCCESS)
         {
-            table->numconflicts++;
+            r = msi_view_get_row(data->db, tv, n, &row);
+            if (r == LIBMSI_RESULT_SUCCESS && !_libmsi_record_compare(rec, row))
+                table->numconflicts++;
             goto done;
         }
         else if (r != NO_MORE_ITEMS)
@@ -1817,14 +1748,10 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     list_add_tail(&table->rows, &mergerow->entry);
 
 done:
-    if (err)
-        g_critical("%s", err->message);
-    g_clear_error(&err);
-    msi_free(query);
     if (row)
         g_object_unref(row);
-    if (dbview)
-        g_object_unref(dbview);
+    if (tv)
+        tv->ops->delete(tv);
     return r;
 }
 
@@ -2047,7 +1974,6 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
         goto done;
 
     data->curtable = table;
-    data->curview = mergeview;
     r = _libmsi_query_iterate_records(mergeview, NULL, merge_diff_row, data);
     if (r != LIBMSI_RESULT_SUCCESS)
     {
diff --git a/libmsi/query.h b/libmsi/query.h
index fd7e83d..ffe35b9 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -104,6 +104,8 @@ static inline unsigned msi_column_mask( unsigned n )
 
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view );
 
+unsigned table_view_find_record( LibmsiView *view, LibmsiRecord *rec, unsigned *row );
+
 unsigned select_view_create( LibmsiDatabase *db, LibmsiView **view, LibmsiView *table,
                         const column_info *columns );
 
diff --git a/libmsi/table.c b/libmsi/table.c
index cbc0af4..0b96a7f 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2673,6 +2673,30 @@ static unsigned msi_table_find_row( LibmsiTableView *tv, LibmsiRecord *rec, unsi
     return r;
 }
 
+/* find the row of a table that has the keys of a record; when there is none,
+ * fail with NO_MORE_ITEMS if the record could be inserted */
+unsigned table_view_find_record( LibmsiView *view, LibmsiRecord *rec, unsigned *row )
+{
+    LibmsiTableView *tv = (LibmsiTableView*)view;
+    unsigned r;
+
+    if ( !tv->table )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    if ( msi_table_find_row( tv, rec, row, NULL ) == LIBMSI_RESULT_SUCCESS )
+        return LIBMSI_RESULT_SUCCESS;
+
+    r = table_validate_new( tv, rec, NULL );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
+    r = table_validate_fields( tv, rec, msi_column_mask( tv->num_cols ) );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
+    return NO_MORE_ITEMS;
+}
+
 typedef struct
 {
     struct list entry;
-- 
2.43.0


From 18b5f87c0b05921bbccbea1bf4fc31413d586545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 49/85] fix: merge nothing when any table has a conflict

---
 libmsi/libmsi-database.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 20cdc28..e5de5ba 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2112,16 +2112,23 @@ libmsi_database_merge (LibmsiDatabase *db,
 
     LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
     {
-        if (table->numconflicts)
-        {
-            conflicts = true;
+        if (!table->numconflicts)
+            continue;
 
-            r = update_merge_errors(db, tablename, table->name,
-                                    table->numconflicts);
-            if (r != LIBMSI_RESULT_SUCCESS)
-                break;
-        }
-        else
+        conflicts = true;
+        if (!tablename)
+            break;
+
+        r = update_merge_errors(db, tablename, table->name,
+                                table->numconflicts);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            break;
+    }
+
+    /* nothing is merged when there is any conflict */
+    if (!conflicts)
+    {
+        LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
         {
             r = merge_table(db, table);
             if (r != LIBMSI_RESULT_SUCCESS)
-- 
2.43.0


From bcfb52221c6c27c5a674816dcfcb6b1973a2db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 50/85] fix: let a merge report conflicts again in the same
 table

---
 libmsi/libmsi-database.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e5de5ba..7491cb6 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2045,13 +2045,16 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
                                 char *table, unsigned numconflicts)
 {
     unsigned r;
-    LibmsiQuery *view;
+    LibmsiQuery *view = NULL;
+    LibmsiRecord *rec;
 
     static const char create[] =
         "CREATE TABLE `%s` (`Table` CHAR(255) NOT NULL, "
 	"`NumRowMergeConflicts` SHORT NOT NULL PRIMARY KEY `Table`)";
+    static const char delete[] =
+        "DELETE FROM `%s` WHERE `Table` = ?";
     static const char insert[] =
-        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES ('%s', %d)";
+        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES (?, ?)";
 
     if (!table_view_exists(db, error))
     {
@@ -2065,12 +2068,31 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
             return r;
     }
 
-    r = _libmsi_query_open(db, &view, insert, error, table, numconflicts);
+    rec = libmsi_record_new(2);
+    libmsi_record_set_string(rec, 1, table);
+    libmsi_record_set_int(rec, 2, numconflicts);
+
+    /* replace what an earlier merge said of the table */
+    r = _libmsi_query_open(db, &view, delete, error);
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
 
-    r = _libmsi_query_execute(view, NULL);
+    r = _libmsi_query_execute(view, rec);
     g_object_unref(view);
+    view = NULL;
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
+    r = _libmsi_query_open(db, &view, insert, error);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
+    r = _libmsi_query_execute(view, rec);
+
+done:
+    if (view)
+        g_object_unref(view);
+    g_object_unref(rec);
     return r;
 }
 
-- 
2.43.0


From 914d3312db120455e673477062f73a5694b9a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 51/85] fix: a merged row with the same stream is no conflict

---
 libmsi/libmsi-database.c | 53 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 7491cb6..6db2f9f 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1701,6 +1701,54 @@ done:
     return r;
 }
 
+static unsigned merge_compare_streams(GsfInput *a, GsfInput *b, bool *same)
+{
+    gsf_off_t left = gsf_input_size(a);
+    uint8_t buf[4096];
+
+    *same = left == gsf_input_size(b);
+    gsf_input_seek(a, 0, G_SEEK_SET);
+    gsf_input_seek(b, 0, G_SEEK_SET);
+
+    while (left > 0 && *same)
+    {
+        size_t n = MIN(left, (gsf_off_t)sizeof(buf));
+        const uint8_t *data;
+
+        if (!gsf_input_read(a, n, buf) || !(data = gsf_input_read(b, n, NULL)))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+
+        *same = !memcmp(buf, data, n);
+        left -= n;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
+static unsigned merge_compare_rows(LibmsiRecord *a, LibmsiRecord *b, bool *same)
+{
+    unsigned i, r = LIBMSI_RESULT_SUCCESS, count = libmsi_record_get_field_count(a);
+
+    *same = count == libmsi_record_get_field_count(b);
+    for (i = 1; i <= count && *same && r == LIBMSI_RESULT_SUCCESS; i++)
+    {
+        GsfInput *ina = NULL, *inb = NULL;
+
+        if (_libmsi_record_get_gsf_input(a, i, &ina) == LIBMSI_RESULT_SUCCESS &&
+            _libmsi_record_get_gsf_input(b, i, &inb) == LIBMSI_RESULT_SUCCESS)
+            r = merge_compare_streams(ina, inb, same);
+        else
+            *same = _libmsi_record_compare_fields(a, b, i);
+
+        if (ina)
+            g_object_unref(ina);
+        if (inb)
+            g_object_unref(inb);
+    }
+
+    return r;
+}
+
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
 {
     MERGEDATA *data = param;
@@ -1709,6 +1757,7 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     LibmsiView *tv = NULL;
     LibmsiRecord *row = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS, n;
+    bool same;
 
     if (table_view_exists(data->db, table->name))
     {
@@ -1720,7 +1769,9 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
         if (r == LIBMSI_RESULT_SUCCESS)
         {
             r = msi_view_get_row(data->db, tv, n, &row);
-            if (r == LIBMSI_RESULT_SUCCESS && !_libmsi_record_compare(rec, row))
+            if (r == LIBMSI_RESULT_SUCCESS)
+                r = merge_compare_rows(rec, row, &same);
+            if (r == LIBMSI_RESULT_SUCCESS && !same)
                 table->numconflicts++;
             goto done;
         }
-- 
2.43.0


From b0f15ee694609b8cc41e76b1fed5caa12e8b7687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 52/85] fix: cope with columns that have no name

---
 libmsi/libmsi-database.c | 28 ++++++++++++++++++----------
 libmsi/table.c           |  2 ++
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6db2f9f..dc3d0ef 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1598,6 +1598,14 @@ static bool merge_type_match(const char *type1, const char *type2)
     return !strcmp( type1, type2 );
 }
 
+/* the names in a damaged package may be missing */
+static const char *merge_get_name(LibmsiRecord *rec, unsigned i)
+{
+    const char *name = _libmsi_record_get_string_raw(rec, i);
+
+    return name ? name : "";
+}
+
 static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergeview)
 {
     LibmsiRecord *dbrec, *mergerec;
@@ -1617,10 +1625,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
     {
-        if (!_libmsi_record_get_string_raw(mergerec, i))
+        if (i > libmsi_record_get_field_count(mergerec))
             break;
 
-        if (strcmp( _libmsi_record_get_string_raw( dbrec, i ), _libmsi_record_get_string_raw( mergerec, i ) ))
+        if (strcmp( merge_get_name( dbrec, i ), merge_get_name( mergerec, i ) ))
         {
             r = LIBMSI_RESULT_DATATYPE_MISMATCH;
             goto done;
@@ -1645,11 +1653,11 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
     {
-        if (!_libmsi_record_get_string_raw(mergerec, i))
+        if (i > libmsi_record_get_field_count(mergerec))
             break;
 
-        if (!merge_type_match(_libmsi_record_get_string_raw(dbrec, i),
-                     _libmsi_record_get_string_raw(mergerec, i)))
+        if (!merge_type_match(merge_get_name(dbrec, i),
+                     merge_get_name(mergerec, i)))
         {
             r = LIBMSI_RESULT_DATATYPE_MISMATCH;
             break;
@@ -1686,7 +1694,7 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
     for (i = 1; i <= count; i++)
     {
-        if (strcmp( _libmsi_record_get_string_raw( dbrec, i ), _libmsi_record_get_string_raw( mergerec, i ) ))
+        if (strcmp( merge_get_name( dbrec, i ), merge_get_name( mergerec, i ) ))
         {
             r = LIBMSI_RESULT_DATATYPE_MISMATCH;
             goto done;
@@ -1827,7 +1835,7 @@ static unsigned msi_get_table_labels(LibmsiDatabase *db, const char *table, char
     (*labels)[0] = strdup(table);
     for (i=1; i<=count; i++ )
     {
-        (*labels)[i] = strdup(_libmsi_record_get_string_raw(prec, i));
+        (*labels)[i] = strdup(merge_get_name(prec, i));
     }
 
 end:
@@ -1854,7 +1862,7 @@ static unsigned msi_get_query_columns(LibmsiQuery *query, char ***columns, unsig
 
     for (i=1; i<=count; i++ )
     {
-        (*columns)[i-1] = strdup(_libmsi_record_get_string_raw(prec, i));
+        (*columns)[i-1] = strdup(merge_get_name(prec, i));
     }
 
     *numcolumns = count;
@@ -1884,7 +1892,7 @@ static unsigned msi_get_query_types(LibmsiQuery *query, char ***types, unsigned
     *numtypes = count;
     for (i=1; i<=count; i++ )
     {
-        (*types)[i-1] = strdup(_libmsi_record_get_string_raw(prec, i));
+        (*types)[i-1] = strdup(merge_get_name(prec, i));
     }
 
 end:
@@ -1999,7 +2007,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
 
     static const char query[] = "SELECT * FROM `%s`";
 
-    name = _libmsi_record_get_string_raw(rec, 1);
+    name = merge_get_name(rec, 1);
 
     r = _libmsi_query_open(data->merge, &mergeview, query, name);
     if (r != LIBMSI_RESULT_SUCCESS)
diff --git a/libmsi/table.c b/libmsi/table.c
index 0b96a7f..1cc83cf 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -781,6 +781,8 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
             colinfo[col - 1].tablename = msi_string_lookup_id( db->strings, table_id );
             colinfo[col - 1].number = col;
             colinfo[col - 1].colname = msi_string_lookup_id( db->strings, id );
+            if (!colinfo[col - 1].colname)
+                colinfo[col - 1].colname = "";
             colinfo[col - 1].type = read_table_int( table->data, i, table->colinfo[3].offset,
                                                     sizeof(uint16_t) ) - (1 << 15);
             colinfo[col - 1].offset = 0;
-- 
2.43.0


From ccfe2d87b2c7aa4d915e756e8bae3cb3bc1d877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 53/85] fix: let SELECT DISTINCT show binary columns

---
 libmsi/distinct.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index b3f1c3c..d1493c7 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,10 +99,27 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table || !dv->translation )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    row = dv->translation[ row ];
+
+    return dv->table->ops->fetch_stream( dv->table, row, col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
-    unsigned r, i, j, r_count, c_count;
+    unsigned r, i, j, r_count, c_count, type;
     LibmsiDistinctSet *rowset = NULL;
 
     TRACE("%p %p\n", dv, record);
@@ -142,6 +159,15 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
                 distinct_free( rowset );
                 return r;
             }
+            r = dv->table->ops->get_column_info( dv->table, j, NULL, &type, NULL, NULL );
+            if( r != LIBMSI_RESULT_SUCCESS )
+            {
+                distinct_free( rowset );
+                return r;
+            }
+            /* every stream is a value of its own */
+            if( val && MSITYPE_IS_BINARY(type) )
+                val = i + 1;
             x = distinct_insert( x, val, i );
             if( !*x )
             {
@@ -255,7 +281,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From daab0e09a34d3f8deef2cfd51a96126895cbb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 54/85] fix: let msibuild fail when a requested change fails

---
 tools/msibuild.c | 52 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..261a1c1 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -102,7 +102,6 @@ static gboolean open_database(const char *msifile, LibmsiDatabase **db,
         if (!libmsi_database_commit(*db, error))
         {
             fprintf(stderr, "failed to commit database\n");
-            g_object_unref(*db);
             goto end;
         }
     }
@@ -183,7 +182,8 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, stream);
     if (!libmsi_record_load_stream(rec, 2, file)) {
-        fprintf(stderr, "failed to load stream (%u)\n", r);
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_OPEN_FAILED,
+                    "failed to load stream from %s", file);
         goto end;
     }
 
@@ -197,15 +197,13 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
         goto end;
     }
 
-    r = TRUE;
+    r = libmsi_query_close(query, error);
 
 end:
     if (rec)
         g_object_unref(rec);
-    if (query) {
-        libmsi_query_close(query, error);
+    if (query)
         g_object_unref(query);
-    }
 
     return r;
 }
@@ -227,13 +225,11 @@ static int do_query(const char *sql, void *opaque)
         goto end;
     }
 
-    success = TRUE;
+    success = libmsi_query_close(query, error);
 
 end:
-    if (query) {
-        libmsi_query_close(query, error);
+    if (query)
         g_object_unref(query);
-    }
 
     return !success;
 }
@@ -275,15 +271,17 @@ int main(int argc, char *argv[])
     } else {
         success = open_database(argv[1], &db, &error);
     }
-    if (!success) return 1;
+    if (!success)
+        goto end;
 
+    success = FALSE;
     argc -= 2, argv += 2;
     while (argc > 0) {
         int ret;
-        if (argc < 2 || argv[0][0] != '-' || argv[0][2])
+        if (argc < 2 || argv[0][0] != '-' || !argv[0][1] || argv[0][2])
         {
             show_usage();
-            return 1;
+            goto end;
         }
 
         switch (argv[0][1])
@@ -303,7 +301,7 @@ int main(int argc, char *argv[])
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -315,15 +313,19 @@ int main(int argc, char *argv[])
                 if (ret == 0) {
                     ret = sql_get_statement("", do_query, &error);
                 }
-                if (ret) {
-                    break;
-                }
+                if (ret)
+                    goto end;
+
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3)
+            {
+                show_usage();
+                goto end;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -331,21 +333,23 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            goto end;
         }
     }
 
-    if (!libmsi_database_commit(db, &error))
-        goto end;
+    success = libmsi_database_commit(db, &error);
+    if (!success)
+        fprintf(stderr, "failed to commit database\n");
 
 end:
-    g_object_unref(db);
+    if (db)
+        g_object_unref(db);
 
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
         g_clear_error(&error);
-        exit(1);
+        success = FALSE;
     }
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From 93e6e9dd60ff7cf987fec420fa1a96d4bdeb6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 55/85] fix: do not skip the option after -s in msibuild

---
 tools/msibuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 261a1c1..d645a0e 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -296,7 +296,7 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
-- 
2.43.0


From d269cea6fbfa7e5fabfca8c22e363e5dfa262eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 56/85] fix: store a new package once, with the requested
 changes, in msibuild

---
 tools/msibuild.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index d645a0e..e62bced 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -98,12 +98,6 @@ static gboolean open_database(const char *msifile, LibmsiDatabase **db,
 
         if (!libmsi_summary_info_persist(si, error))
             goto end;
-
-        if (!libmsi_database_commit(*db, error))
-        {
-            fprintf(stderr, "failed to commit database\n");
-            goto end;
-        }
     }
     else
     {
-- 
2.43.0


From a9726c7ad6488c0aee3591da01fc33817a4f8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 57/85] fix: let msiinfo fail when its output cannot be written

---
 tools/msiinfo.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..437c0f4 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -770,8 +770,16 @@ int main(int argc, char **argv)
     int result = cmd->func(cmd, argc - 1, argv + 1, &error);
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
-        print_libmsi_error(error->code);
+        if (error->domain == LIBMSI_RESULT_ERROR)
+            print_libmsi_error(error->code);
         g_clear_error(&error);
+        result = 1;
+    }
+
+    /* what was printed may still be buffered, or have been lost */
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "%s: failed to write the output\n", g_get_prgname ());
+        result = 1;
     }
 
     return result;
-- 
2.43.0


From 256aea88e8d01defa16cb62f891e869c7d993714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 58/85] fix: let msiinfo export -s succeed for empty tables

---
 tools/msiinfo.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 437c0f4..f40518e 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -427,7 +427,7 @@ static gboolean export_create_table(const char *table,
         !strcmp(table, "_Columns") ||
         !strcmp(table, "_Streams") ||
         !strcmp(table, "_Storages")) {
-        return 0;
+        return TRUE;
     }
 
     printf("CREATE TABLE `%s` (", table);
@@ -584,6 +584,7 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
 
     sql = g_strdup_printf("select * from `%s`", table);
     query = libmsi_query_new(db, sql, error);
+    g_free(sql);
     if (*error) {
         goto done;
     }
@@ -609,6 +610,8 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
     if (!export_create_table(table, name, type, keys))
         goto done;
 
+    success = TRUE;
+
     /* write out row 4 onwards, the data */
     while ((rec = libmsi_query_fetch(query, &err))) {
         success = export_insert(table, name, type, rec);
@@ -626,10 +629,14 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
     g_clear_error(&err);
 
 done:
-    g_object_unref(name);
-    g_object_unref(type);
-    g_object_unref(keys);
-    g_object_unref(query);
+    if (name)
+        g_object_unref(name);
+    if (type)
+        g_object_unref(type);
+    if (keys)
+        g_object_unref(keys);
+    if (query)
+        g_object_unref(query);
     return success;
 }
 
@@ -637,6 +644,7 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
 {
     LibmsiDatabase *db = NULL;
     gboolean sql = FALSE;
+    int r = 1;
 
     if (argc > 1 && !strcmp(argv[1], "-s")) {
         sql = TRUE;
@@ -654,7 +662,7 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
 
     if (sql) {
         if (!export_sql(db, argv[2], error))
-            return 1;
+            goto end;
     } else {
 #if O_BINARY
         _setmode(STDOUT_FILENO, O_BINARY);
@@ -663,11 +671,13 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
             goto end;
     }
 
+    r = 0;
+
 end:
     if (db)
         g_object_unref(db);
 
-    return *error ? 1 : 0;
+    return r;
 }
 
 static int cmd_version(struct Command *cmd, int argc, char **argv, GError **error)
-- 
2.43.0


From 6605790ca189ec2b262a2e0c67409af3cfc29f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 59/85] fix: let msiinfo suminfo fail when a property cannot be
 read

---
 tools/msiinfo.c | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f40518e..8383148 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -240,8 +240,9 @@ end:
     return r;
 }
 
-static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
+static gboolean print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
 {
+    gboolean success = FALSE;
     GError *error = NULL;
     unsigned type;
     const gchar* str;
@@ -274,7 +275,8 @@ static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
             goto end;
         /* Convert nanoseconds since 1601 to seconds since Unix epoch.  */
         t = (valtime / 10000000) - (uint64_t) 134774 * 86400;
-        printf ("%s: %s", name, ctime(&t));
+        str = ctime(&t);
+        printf ("%s: %s", name, str ? str : "invalid time\n");
         break;
 
     case LIBMSI_PROPERTY_TYPE_EMPTY:
@@ -284,16 +286,20 @@ static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
 	abort();
     }
 
+    success = TRUE;
+
 end:
     if (error)
         g_warning("Can't print summary info: %s", error->message);
     g_clear_error(&error);
+    return success;
 }
 
 static int cmd_suminfo(struct Command *cmd, int argc, char **argv, GError **error)
 {
     LibmsiDatabase *db = NULL;
     LibmsiSummaryInfo *si = NULL;
+    gboolean success = TRUE;
 
     if (argc != 2) {
         cmd_usage(stderr, cmd);
@@ -307,24 +313,24 @@ static int cmd_suminfo(struct Command *cmd, int argc, char **argv, GError **erro
     if (!si)
         goto end;
 
-    print_suminfo(si, LIBMSI_PROPERTY_TITLE, "Title");
-    print_suminfo(si, LIBMSI_PROPERTY_SUBJECT, "Subject");
-    print_suminfo(si, LIBMSI_PROPERTY_AUTHOR, "Author");
-    print_suminfo(si, LIBMSI_PROPERTY_KEYWORDS, "Keywords");
-    print_suminfo(si, LIBMSI_PROPERTY_COMMENTS, "Comments");
-    print_suminfo(si, LIBMSI_PROPERTY_TEMPLATE, "Template");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTAUTHOR, "Last author");
-    print_suminfo(si, LIBMSI_PROPERTY_UUID, "Revision number (UUID)");
-    print_suminfo(si, LIBMSI_PROPERTY_EDITTIME, "Edittime");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTPRINTED, "Last printed");
-    print_suminfo(si, LIBMSI_PROPERTY_CREATED_TM, "Created");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTSAVED_TM, "Last saved");
-    print_suminfo(si, LIBMSI_PROPERTY_VERSION, "Version");
-    print_suminfo(si, LIBMSI_PROPERTY_SOURCE, "Source");
-    print_suminfo(si, LIBMSI_PROPERTY_RESTRICT, "Restrict");
-    print_suminfo(si, LIBMSI_PROPERTY_THUMBNAIL, "Thumbnail");
-    print_suminfo(si, LIBMSI_PROPERTY_APPNAME, "Application");
-    print_suminfo(si, LIBMSI_PROPERTY_SECURITY, "Security");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_TITLE, "Title");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_SUBJECT, "Subject");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_AUTHOR, "Author");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_KEYWORDS, "Keywords");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_COMMENTS, "Comments");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_TEMPLATE, "Template");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_LASTAUTHOR, "Last author");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_UUID, "Revision number (UUID)");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_EDITTIME, "Edittime");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_LASTPRINTED, "Last printed");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_CREATED_TM, "Created");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_LASTSAVED_TM, "Last saved");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_VERSION, "Version");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_SOURCE, "Source");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_RESTRICT, "Restrict");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_THUMBNAIL, "Thumbnail");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_APPNAME, "Application");
+    success &= print_suminfo(si, LIBMSI_PROPERTY_SECURITY, "Security");
 
  end:
     if (db)
@@ -332,7 +338,7 @@ static int cmd_suminfo(struct Command *cmd, int argc, char **argv, GError **erro
     if (si)
         g_object_unref(si);
 
-    return *error ? 1 : 0;
+    return *error || !success ? 1 : 0;
 }
 
 static void full_write(int fd, char *buf, size_t sz)
-- 
2.43.0


From 08326a16d4ac554a77f9ba750d68924fa52979cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 60/85] fix: report missing streams in msiinfo extract

---
 tools/msiinfo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 8383148..8b0305a 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -378,7 +378,7 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
 
     rec = libmsi_record_new(1);
     libmsi_record_set_string(rec, 1, argv[2]);
-    r = libmsi_query_execute(query, rec, error);
+    libmsi_query_execute(query, rec, error);
     if (*error)
         goto end;
     g_object_unref(rec);
@@ -386,12 +386,20 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
     rec = libmsi_query_fetch(query, error);
     if (*error)
         goto end;
+    if (!rec) {
+        fprintf(stderr, "%s: no stream named '%s'\n", g_get_prgname (), argv[2]);
+        goto end;
+    }
 
 #if O_BINARY
     _setmode(STDOUT_FILENO, O_BINARY);
 #endif
 
-    in = G_INPUT_STREAM (libmsi_record_get_stream(rec, 1));
+    in = libmsi_record_get_stream(rec, 1);
+    if (!in) {
+        fprintf(stderr, "%s: failed to read stream '%s'\n", g_get_prgname (), argv[2]);
+        goto end;
+    }
     for (;;) {
         n_read = g_input_stream_read (in, buffer, sizeof (buffer), NULL, error);
         if (n_read == -1)
-- 
2.43.0


From cb54376b7b56bf99f69545b82dfe89f0c937090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 61/85] fix: do not garble strings in msiinfo export -s

---
 tools/msiinfo.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 8b0305a..9125b1e 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -504,19 +504,17 @@ static gboolean export_create_table(const char *table,
     return TRUE;
 }
 
-static void print_quoted_string(const char *s)
+static gboolean print_quoted_string(const char *s)
 {
-    putchar('\'');
-    for (; *s; s++) {
-        switch (*s) {
-        case '\n': putchar('\\'); putchar('n'); break;
-        case '\r': putchar('\\'); putchar('r'); break;
-        case '\\': putchar('\\'); putchar('\\'); break;
-        case '\'': putchar('\\'); putchar('\''); break;
-        default: putchar(*s);
-        }
+    /* SQL strings have no escapes */
+    if (strchr(s, '\'')) {
+        fprintf(stderr, "%s: cannot express a string with a quote in SQL: %s\n",
+                g_get_prgname (), s);
+        return FALSE;
     }
-    putchar('\'');
+
+    printf("'%s'", s);
+    return TRUE;
 }
 
 static gboolean export_insert(const char *table,
@@ -525,6 +523,7 @@ static gboolean export_insert(const char *table,
                               LibmsiRecord *vals)
 {
     guint num_columns = libmsi_record_get_field_count(names);
+    gboolean success;
     gchar *name, *type;
     guint i;
     char *s;
@@ -565,8 +564,12 @@ static gboolean export_insert(const char *table,
             case 'l': case 'L':
             case 's': case 'S':
                 s = libmsi_record_get_string(vals, i);
-                print_quoted_string(s);
+                success = print_quoted_string(s);
                 g_free(s);
+                if (!success) {
+                    g_free(type);
+                    return FALSE;
+                }
                 break;
 
             case 'i': case 'I':
-- 
2.43.0


From f3fb9c77f31f04eacb666101d27342569a34636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 62/85] fix: let a query for msibuild begin with a space

---
 tools/sqldelim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..915be29 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -228,7 +228,7 @@ int sql_get_statement(const char *start,
         if (done) {
 stmt:
             cont = false;
-            stmt = g_strndup(str.str, str.len);
+            stmt = g_strstrip(g_strndup(str.str, str.len));
             g_string_erase(&str, 0, str.len);
             if (stmt[0]) {
                 ret = fn(stmt, opaque);
-- 
2.43.0


From ea7e205271465fcd4ce71bc7356ce62795fff700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 63/85] fix: msibuild does not overwrite a package it cannot
 stat

---
 tools/msibuild.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index e62bced..0d0bdac 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -19,6 +19,7 @@
  */
 
 #include <config.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -82,6 +83,14 @@ static gboolean open_database(const char *msifile, LibmsiDatabase **db,
 
     if (stat(msifile, &st) == -1)
     {
+        /* do not take a package that cannot be looked at for a missing one */
+        if (errno != ENOENT)
+        {
+            g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_OPEN_FAILED,
+                        "cannot access %s: %s", msifile, g_strerror(errno));
+            goto end;
+        }
+
         *db = libmsi_database_new(msifile, LIBMSI_DB_FLAGS_CREATE, NULL, error);
         if (!*db)
             goto end;
-- 
2.43.0


From a33178a3cf89fe208caed79983b74ad9d8517edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 64/85] fix: msibuild does not crash on an empty query

---
 tools/sqldelim.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index 915be29..2bf613e 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -199,7 +199,7 @@ int sql_get_statement(const char *start,
                       int (*fn)(const char *stmt, void *opaque),
                       void *opaque)
 {
-    static GString str;
+    static GString *str;
     static bool cont = false;
 
     const char *p = start;
@@ -207,6 +207,9 @@ int sql_get_statement(const char *start,
     bool done;
     int ret = 0;
 
+    if (!str)
+        str = g_string_new("");
+
     /* Final part?  Build a statement with what's left.  */
     if (!*p) {
         goto stmt;
@@ -222,14 +225,14 @@ int sql_get_statement(const char *start,
             p++;
         } else {
             done = sql_skip_token(&p, &cont);
-            g_string_append_len(&str, start, p - start);
+            g_string_append_len(str, start, p - start);
         }
 
         if (done) {
 stmt:
             cont = false;
-            stmt = g_strstrip(g_strndup(str.str, str.len));
-            g_string_erase(&str, 0, str.len);
+            stmt = g_strstrip(g_strndup(str->str, str->len));
+            g_string_erase(str, 0, str->len);
             if (stmt[0]) {
                 ret = fn(stmt, opaque);
             }
-- 
2.43.0


From 2197640ae605add33e52e773ece353bce9111e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 65/85] fix: msiinfo does not free an error it still reports

---
 tools/msiinfo.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 9125b1e..fca2009 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -165,8 +165,6 @@ static void print_strings_from_query(LibmsiQuery *query, GError **error)
 
     if (err)
         g_propagate_error(error, err);
-
-    g_clear_error(&err);
 }
 
 static int cmd_streams(struct Command *cmd, int argc, char **argv, GError **error)
@@ -643,8 +641,6 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         success = FALSE;
     }
 
-    g_clear_error(&err);
-
 done:
     if (name)
         g_object_unref(name);
-- 
2.43.0


From 36e108c1102181d3ab496977b9869e40649f45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 66/85] fix: msiinfo export -s lists columns correctly when the
 first is null

---
 tools/msiinfo.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index fca2009..8f5cd9e 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -523,36 +523,60 @@ static gboolean export_insert(const char *table,
     guint num_columns = libmsi_record_get_field_count(names);
     gboolean success;
     gchar *name, *type;
-    guint i;
+    guint i, only = 0;
+    const char *sep;
     char *s;
 
+    /* a row of nulls still has to set some column: SQL has no NULL, but ''
+     * is the same as null for anything but an integer */
+    for (i = 1; i <= num_columns; i++) {
+        if (!libmsi_record_is_null(vals, i)) {
+            break;
+        }
+        if (!only) {
+            type = libmsi_record_get_string(types, i);
+            g_return_val_if_fail(type != NULL, FALSE);
+            if (type[0] != 'i' && type[0] != 'I') {
+                only = i;
+            }
+            g_free(type);
+        }
+    }
+    if (i <= num_columns) {
+        only = 0;
+    } else if (!only) {
+        fprintf(stderr, "%s: cannot express a row of null integers in SQL\n",
+                g_get_prgname ());
+        return FALSE;
+    }
+
     printf("INSERT INTO `%s` (", table);
+    sep = "";
     for (i = 1; i <= num_columns; i++)
     {
-        if (libmsi_record_is_null(vals, i)) {
+        if (libmsi_record_is_null(vals, i) && i != only) {
             continue;
         }
 
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
-            printf(", ");
-        }
+        printf("%s", sep);
+        sep = ", ";
 
         printf("`%s`", name);
         g_free(name);
     }
     printf(") VALUES (");
+    sep = "";
     for (i = 1; i <= num_columns; i++)
     {
-        if (libmsi_record_is_null(vals, i)) {
+        if (libmsi_record_is_null(vals, i) && i != only) {
             continue;
         }
 
-        if (i > 1) {
-            printf(", ");
-        }
+        printf("%s", sep);
+        sep = ", ";
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
@@ -562,7 +586,7 @@ static gboolean export_insert(const char *table,
             case 'l': case 'L':
             case 's': case 'S':
                 s = libmsi_record_get_string(vals, i);
-                success = print_quoted_string(s);
+                success = print_quoted_string(s ? s : "");
                 g_free(s);
                 if (!success) {
                     g_free(type);
-- 
2.43.0


From ed774f6a4f034e6f343a8c104e88c633392f8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 67/85] fix: notice when the input of wixl-heat cannot be read

---
 tools/wixl/util.vala | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/util.vala b/tools/wixl/util.vala
index 689b284..e0745da 100644
--- a/tools/wixl/util.vala
+++ b/tools/wixl/util.vala
@@ -175,7 +175,16 @@ namespace Wixl {
         }
 
         public override ssize_t read ([CCode (array_length_type = "gsize")] uint8[] buffer, GLib.Cancellable? cancellable = null) throws GLib.IOError {
-            return Posix.read(fd, buffer, buffer.length);
+            ssize_t n = 0;
+
+            do {
+                n = Posix.read (fd, buffer, buffer.length);
+            } while (n < 0 && Posix.errno == Posix.EINTR);
+
+            if (n < 0)
+                throw new GLib.IOError.FAILED ("Read error: %s", Posix.strerror (Posix.errno));
+
+            return n;
         }
 
         public override bool close(GLib.Cancellable? cancellable = null) throws GLib.IOError {
-- 
2.43.0


From efae1d179cc2a6dd483344d9a717262f64900bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 68/85] fix: let wixl-heat fail when its input cannot be read

---
 tools/wixl/wixl-heat.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 4c828f7..a40f79c 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -112,7 +112,8 @@ public int main (string[] args) {
             }
         }
     } catch (GLib.Error error) {
-        warning (error.message);
+        GLib.stderr.printf ("%s\n", error.message);
+        return 1;
     }
 
     indent = indent[0:-2];
-- 
2.43.0


From 580cb9ff838238192b0bfe993e7f1ade2b484bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 69/85] fix: let wixl-heat fail when its output cannot be
 written

---
 tools/wixl/wixl-heat.vala | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index a40f79c..e44c0af 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -136,5 +136,11 @@ public int main (string[] args) {
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
     stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+
+    if (stdout.flush () != 0 || stdout.error () != 0) {
+        GLib.stderr.printf ("Failed to write the output\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 7242f1207fbb9edf89e55d848b3adc50c3a23861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 70/85] fix: escape names in the output of wixl-heat

---
 tools/wixl/wixl-heat.vala | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index e44c0af..e8b89c4 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -27,7 +27,7 @@ bool filtered (string file) {
 }
 
 string escape_filename(string filename) {
-    return filename.replace("$", "$$");
+    return Markup.escape_text (filename.replace("$", "$$"));
 }
 
 public int main (string[] args) {
@@ -60,7 +60,7 @@ public int main (string[] args) {
     stdout.printf ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
     stdout.printf ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
     stdout.printf ("  <Fragment>\n");
-    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (dr));
+    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (Markup.escape_text (dr)));
 
     string[] last_path = null;
     List<string> cmpref = null;
@@ -94,7 +94,7 @@ public int main (string[] args) {
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), path[i]));
+                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -106,8 +106,9 @@ public int main (string[] args) {
                     stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
                 else
                     stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
-                file = sourcedir + Path.DIR_SEPARATOR_S + escape_filename(file);
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, file), file));
+                var source = sourcedir + Path.DIR_SEPARATOR_S;
+                var id_name = source + file.replace ("$", "$$");
+                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, id_name), Markup.escape_text (source) + escape_filename (file)));
                 stdout.printf (indent + "</Component>\n");
             }
         }
@@ -126,7 +127,7 @@ public int main (string[] args) {
     stdout.printf ("  </Fragment>\n");
     if (cg != null) {
         stdout.printf ("  <Fragment>\n");
-        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (cg));
+        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (Markup.escape_text (cg)));
         foreach (var id in cmpref)
             stdout.printf ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
         stdout.printf ("    </ComponentGroup>\n");
-- 
2.43.0


From 34afa13a132bc383d96453655d5fea87df7685b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 71/85] fix: do not use file names as format strings in
 wixl-heat

---
 tools/wixl/wixl-heat.vala | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index e8b89c4..b49cd83 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -60,7 +60,7 @@ public int main (string[] args) {
     stdout.printf ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
     stdout.printf ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
     stdout.printf ("  <Fragment>\n");
-    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (Markup.escape_text (dr)));
+    stdout.puts ("    <DirectoryRef Id=\"%s\">\n".printf (Markup.escape_text (dr)));
 
     string[] last_path = null;
     List<string> cmpref = null;
@@ -90,11 +90,11 @@ public int main (string[] args) {
                     i++;
                 for (var j = last_path.length - i; j > 0; j--) {
                     indent = indent[0:-2];
-                    stdout.printf (indent + "</Directory>\n");
+                    stdout.puts (indent + "</Directory>\n");
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
+                stdout.puts (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -103,13 +103,13 @@ public int main (string[] args) {
                 var id = generate_id ("cmp", 1, file);
                 cmpref.append (id);
                 if (win64)
-                    stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
+                    stdout.puts (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
                 else
-                    stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
+                    stdout.puts (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
                 var source = sourcedir + Path.DIR_SEPARATOR_S;
                 var id_name = source + file.replace ("$", "$$");
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, id_name), Markup.escape_text (source) + escape_filename (file)));
-                stdout.printf (indent + "</Component>\n");
+                stdout.puts (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, id_name), Markup.escape_text (source) + escape_filename (file)));
+                stdout.puts (indent + "</Component>\n");
             }
         }
     } catch (GLib.Error error) {
@@ -119,7 +119,7 @@ public int main (string[] args) {
 
     indent = indent[0:-2];
     foreach (var l in last_path) {
-      stdout.printf (indent + "</Directory>\n");
+      stdout.puts (indent + "</Directory>\n");
       indent = indent[0:-2];
     }
 
@@ -127,9 +127,9 @@ public int main (string[] args) {
     stdout.printf ("  </Fragment>\n");
     if (cg != null) {
         stdout.printf ("  <Fragment>\n");
-        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (Markup.escape_text (cg)));
+        stdout.puts ("    <ComponentGroup Id=\"%s\">\n".printf (Markup.escape_text (cg)));
         foreach (var id in cmpref)
-            stdout.printf ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
+            stdout.puts ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
         stdout.printf ("    </ComponentGroup>\n");
         stdout.printf ("  </Fragment>\n");
     }
-- 
2.43.0


From b588eb6da823f4448fc7d4bd062ad488d94184fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 72/85] fix: do not use messages as format strings in wixl

---
 tools/wixl/preprocessor.vala | 2 +-
 tools/wixl/wixl.vala         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..48b45b5 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -336,7 +336,7 @@ namespace Wixl {
         }
 
         void print (string prefix, Location loc, string msg) {
-            stderr.printf (loc.to_string () + ": " + prefix + ": " + msg + "\n");
+            stderr.puts (loc.to_string () + ": " + prefix + ": " + msg + "\n");
         }
 
         class IfContext {
diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index 993860d..e2f4ec8 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -63,7 +63,7 @@ namespace Wixl {
         try {
             opt_context.parse (ref args);
         } catch (OptionError.BAD_VALUE err) {
-            GLib.stderr.printf (err.message + "\n");
+            GLib.stderr.printf ("%s\n", err.message);
             exit (1);
         } catch (OptionError error) {
             warning (error.message);
@@ -130,7 +130,7 @@ namespace Wixl {
                 print (_("Writing %s...\n"), output);
             msi.build (output);
         } catch (GLib.Error error) {
-            printerr (error.message + "\n");
+            printerr ("%s\n", error.message);
             return 1;
         }
 
-- 
2.43.0


From 86c4156e16a939b90ee5af0549e5494ff5465c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 73/85] fix: no double hyphen in the comment wixl-heat writes

---
 tools/wixl/wixl-heat.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index b49cd83..43c2c4f 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -136,7 +136,9 @@ public int main (string[] args) {
 
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
-    stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+    while (cmdline.contains ("--"))
+        cmdline = cmdline.replace ("--", "-");
+    stdout.printf ("<!-- %s -->\n", cmdline);
 
     if (stdout.flush () != 0 || stdout.error () != 0) {
         GLib.stderr.printf ("Failed to write the output\n");
-- 
2.43.0


From a0ce9eaaaa1353356c57ef424ff82947db39b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 74/85] fix: wixl-heat does not take a directory it cannot
 examine for a file

---
 tools/wixl/wixl-heat.vala | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 43c2c4f..8a7d2e0 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -79,7 +79,14 @@ public int main (string[] args) {
                 continue;
 
             var gfile = File.new_for_path (line);
-            var is_directory = gfile.query_file_type (FileQueryInfoFlags.NONE) == FileType.DIRECTORY;
+            var is_directory = false;
+            try {
+                var info = gfile.query_info (FileAttribute.STANDARD_TYPE, FileQueryInfoFlags.NONE);
+                is_directory = info.get_file_type () == FileType.DIRECTORY;
+            } catch (IOError.NOT_FOUND error) {
+                // the list may name files that are not here
+            } catch (IOError.NOT_DIRECTORY error) {
+            }
 
             var dir = is_directory ? file : Path.get_dirname (file);
             var path = dir.split (Path.DIR_SEPARATOR_S, -1);
-- 
2.43.0


From 6fcf7cc568dc3a1e6730d5b6882eb7716efb1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 75/85] fix: wixl and wixl-heat take arguments outside ASCII

---
 tools/wixl/wixl-heat.vala | 1 +
 tools/wixl/wixl.vala      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 8a7d2e0..06f447f 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -32,6 +32,7 @@ string escape_filename(string filename) {
 
 public int main (string[] args) {
 
+    Intl.setlocale (LocaleCategory.CTYPE, "");
     var cmdline = string.joinv (" ", args);
     var opt_context = new OptionContext ("");
     opt_context.set_help_enabled (true);
diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index e2f4ec8..231a06b 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -47,6 +47,7 @@ namespace Wixl {
     }
 
     int main (string[] args) {
+        Intl.setlocale (LocaleCategory.CTYPE, "");
         Intl.bindtextdomain (Config.GETTEXT_PACKAGE, Config.LOCALEDIR);
         Intl.bind_textdomain_codeset (Config.GETTEXT_PACKAGE, "UTF-8");
         Intl.textdomain (Config.GETTEXT_PACKAGE);
-- 
2.43.0


From 52df21fd1a684dfa12d93a80f38992e1ee1b6c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 76/85] fix: msiextract reports a cabinet that is not in the
 package

---
 tools/msiextract.vala | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..3d7377f 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -48,10 +48,15 @@ public void extract_cab (Libmsi.Database db, string cab,
 
     if (cab.has_prefix ("#")) {
         var name = cab.substring (1);
-        var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
-        query.execute ();
+        var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?");
+        var param = new Libmsi.Record (1);
+        param.set_string (1, name);
+        query.execute (param);
         var rec = query.fetch ();
-        cabinet.load (rec.get_stream (1));
+        var stream = rec != null ? rec.get_stream (1) : null;
+        if (stream == null)
+            throw new IOError.NOT_FOUND ("cabinet %s is missing", cab);
+        cabinet.load (stream);
     }
     else {
         // Look for the cab file in the directory the MSI file resides in.
@@ -73,7 +78,7 @@ public void extract_cab (Libmsi.Database db, string cab,
                 warning ("couldn't lookup MSI name, fallback on cab name %s", extname);
             }
             current.set_extract_name (extname);
-            GLib.stdout.printf ("%s\n", extname);
+            GLib.stdout.puts (extname + "\n");
             return true;
         }, null);
 }
-- 
2.43.0


From 83318643852743413ead08265ba240c9af9e6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 77/85] fix: msiextract --list lists every package and checks
 its output

---
 tools/msiextract.vala | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 3d7377f..c8e21d5 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -137,12 +137,12 @@ public void extract (string filename) throws GLib.Error {
         var dir = components_dir.lookup (rec.get_string (2));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
-            GLib.stdout.printf ("%s\n", file);
+            GLib.stdout.puts (file + "\n");
         cab_to_name.insert (rec.get_string (1), file);
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
@@ -197,5 +197,10 @@ public int main (string[] args) {
         exit (1);
     }
 
+    if (GLib.stdout.flush () != 0 || GLib.stdout.error () != 0) {
+        GLib.stderr.printf (_("Failed to write the list of files\n"));
+        exit (1);
+    }
+
     return 0;
 }
-- 
2.43.0


From cac3355083cff432eeaad1cc53028727f9c160a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 78/85] fix: msiextract reports directories and components that
 do not exist or contain themselves

---
 tools/msiextract.vala | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index c8e21d5..856a6b7 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -111,13 +111,21 @@ public void extract (string filename) throws GLib.Error {
     while ((rec = query.fetch ()) != null) {
         var dir_id = rec.get_string (3);
         var dir_rec = directories.lookup (dir_id);
+        if (dir_rec == null)
+            throw new IOError.INVALID_DATA ("component %s is in no directory", rec.get_string (1));
         var dir = get_directory_name (dir_rec);
+        var depth = 0;
 
         do {
             var parent = dir_rec.get_string (2);
+            // a root directory has no parent, or itself
+            if (parent == dir_rec.get_string (1))
+                break;
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
+            if (++depth > directories.size ())
+                throw new IOError.INVALID_DATA ("directory %s is inside itself", parent);
             parent = get_directory_name (dir_rec);
             if (parent == null)
                 break;
@@ -135,6 +143,8 @@ public void extract (string filename) throws GLib.Error {
     query.execute ();
     while ((rec = query.fetch ()) != null) {
         var dir = components_dir.lookup (rec.get_string (2));
+        if (dir == null)
+            throw new IOError.INVALID_DATA ("file %s is in no component", rec.get_string (1));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
             GLib.stdout.puts (file + "\n");
-- 
2.43.0


From 1b743826243e49e446cadc90b5456347d483a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 79/85] fix: msiextract keeps to the output directory

---
 tools/msiextract.vala | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 856a6b7..db566b9 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -22,6 +22,17 @@ public string get_long_name (string str) {
     return str;
 }
 
+// Names in a package must not lead out of the output directory.
+public void check_name (string name) throws GLib.Error {
+    var path = name.replace ("\\", "/");
+
+    if (path.has_prefix ("/"))
+        throw new IOError.INVALID_FILENAME ("%s is an absolute path", name);
+    foreach (var part in path.split ("/"))
+        if (part == "..")
+            throw new IOError.INVALID_FILENAME ("%s leads out of the output directory", name);
+}
+
 // Look for a case insensitive match of cab in the directory dir.
 public string lookup_cab (string dir, string cab) throws GLib.Error
 {
@@ -70,6 +81,13 @@ public void extract_cab (Libmsi.Database db, string cab,
         }
     }
 
+    foreach (var folder in cabinet.get_folders ()) {
+        foreach (var file in folder.get_files ()) {
+            var name = cab_to_name.lookup (file.get_name ());
+            check_name (name ?? file.get_name ());
+        }
+    }
+
     var path = File.new_for_path (directory);
     cabinet.extract_simple (path, (current) => {
             var extname = cab_to_name.lookup (current.get_name ());
-- 
2.43.0


From ccffb0a3177f2da2cc73a453387625ee0d849434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 80/85] fix: wixl and wixl-heat do not take what they cannot
 examine for empty

---
 tools/wixl/builder.vala   | 3 +++
 tools/wixl/wixl-heat.vala | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..7cb66e5 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -917,6 +917,9 @@ namespace Wixl {
             var comp = file.parent as WixComponent;
             FileInfo info;
             file.file = find_file (source, out info);
+            // the information is partial when access is denied
+            if (!info.has_attribute (GLib.FileAttribute.STANDARD_SIZE))
+                throw new IOError.PERMISSION_DENIED ("Couldn't examine file %s", source);
             var attr = FileAttribute.VITAL;
             var version = file.CompanionFile ?? file.DefaultVersion;
 
diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 06f447f..47c8816 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -83,6 +83,9 @@ public int main (string[] args) {
             var is_directory = false;
             try {
                 var info = gfile.query_info (FileAttribute.STANDARD_TYPE, FileQueryInfoFlags.NONE);
+                // the information is partial when access is denied
+                if (!info.has_attribute (FileAttribute.STANDARD_TYPE))
+                    throw new IOError.PERMISSION_DENIED ("Couldn't examine %s", line);
                 is_directory = info.get_file_type () == FileType.DIRECTORY;
             } catch (IOError.NOT_FOUND error) {
                 // the list may name files that are not here
-- 
2.43.0


From 871fd76096aa551c88e49590bb6538d2678fada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 81/85] fix: wixl: do not let addresses decide the order of
 custom actions

---
 tools/wixl/msi.vala | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..ff178a2 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -348,19 +348,18 @@ namespace Wixl {
             public bool visited = false;
             public bool incoming_deps = false;
 
-            // Use it as a set, so value is not refcounted please vala
-            public HashTable<Action, Action*> depends_on = new HashTable<Action, Action*> (direct_hash, direct_equal);
+            // A list, so that the order does not depend on addresses
+            public List<unowned Action> depends_on;
 
             public void add_dep (Action a) {
-                hash_table_add (depends_on, a);
+                if (depends_on.find (a) == null)
+                    depends_on.append (a);
                 a.incoming_deps = true;
             }
 
             public int dep_max() {
                 int ret = -1;
-                var it = HashTableIter <Action, Action*> (depends_on);
-                Action dep;
-                while (it.next (null, out dep))
+                foreach (unowned Action dep in depends_on)
                     if (dep.sequence > ret)
                         ret = dep.sequence;
                 return ret;
@@ -375,9 +374,7 @@ namespace Wixl {
 
             action.visited = true;
 
-            Action dep;
-            var it = HashTableIter <Action, Action*> (action.depends_on);
-            while (it.next (null, out dep))
+            foreach (unowned Action dep in action.depends_on)
                 sort_topological_visit (dep, ref sorted);
 
             sorted.append (action);
-- 
2.43.0


From 03e5c0da9829a5d76aed5530897c3d9e494beba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:32 +0000
Subject: [PATCH 82/85] fix: wixl: keep the condition of a standard action that
 is referred to

---
 tools/wixl/msi.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index ff178a2..f0ded33 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -443,8 +443,10 @@ namespace Wixl {
             action.name = name;
 
             var default = MSIDefault.get_action_by_name (name);
-            if (default != null)
+            if (default != null) {
                 action.sequence = default.sequence;
+                action.condition = default.condition;
+            }
 
             return action;
         }
-- 
2.43.0


From 587cc5453da9e1be8410f77b11bede7697af3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 83/85] fix: wixl: report a source it cannot handle instead of
 aborting

---
 tools/wixl/builder.vala | 8 ++++----
 tools/wixl/wix.vala     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 7cb66e5..393e42c 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -446,7 +446,7 @@ namespace Wixl {
                 } else if (package.InstallScope == "perMachine") {
                     db.table_property.add ("ALLUSERS", "1");
                 } else {
-                    error ("invalid InstallScope value: %s", package.InstallScope);
+                    throw new Wixl.Error.FAILED ("invalid InstallScope value: %s", package.InstallScope);
                 }
             }
             db.info.set_property (Libmsi.Property.SOURCE, source);
@@ -755,7 +755,7 @@ namespace Wixl {
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
             } else
-                error ("unhandled parent type %s", comp.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", comp.parent.name);
         }
 
         public override void visit_remove_folder (WixRemoveFolder rm) throws GLib.Error {
@@ -1367,7 +1367,7 @@ namespace Wixl {
                 target = action.ExeCommand;
             } else if (action.ExeCommand != null && action.FileKey != null) {
                 if (find_element<WixFile>(action.FileKey) == null)
-                    error ("file reference '%s' not defined", action.FileKey);
+                    throw new Wixl.Error.FAILED ("file reference '%s' not defined", action.FileKey);
 
                 type = CustomActionType.EXE_FILE;
                 source = action.FileKey;
@@ -1659,7 +1659,7 @@ namespace Wixl {
             string help;
 
             if (!(control.parent is WixDialog)) {
-                error ("unhandled parent type %s", control.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", control.parent.name);
             }
 
             // static controls don't need to be enabled
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 2bfb362..4e2c6f8 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -229,7 +229,7 @@ namespace Wixl {
                 default:
                     break;
                 }
-                error ("unhandled child %s node %s", name, child->name);
+                throw new Error.FAILED ("unhandled child %s node %s".printf (name, child->name));
             }
         }
 
-- 
2.43.0


From 46144968af3360de5e9474f1b54088e74b7e0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 84/85] fix: wixl: shortcuts in a component group, and in no
 feature

---
 tools/wixl/builder.vala | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 393e42c..cd67a38 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -360,6 +360,8 @@ namespace Wixl {
                 if (sc.Target != null)
                     continue;
                 var component = sc.get_component ();
+                if (component.in_feature.length () == 0)
+                    throw new Wixl.Error.FAILED ("advertised shortcut '%s' is in no feature", sc.Id);
                 var feature = component.in_feature.first ().data;
                 MsiTableShortcut.set_target (sc.record, feature.Id);
             }
@@ -962,8 +964,7 @@ namespace Wixl {
 
             var component = shortcut.get_component ();
             if (directory == null && shortcut.parent is WixComponent) {
-                var dir = resolve<WixDirectory> (component.parent);
-                directory = dir.Id;
+                directory = get_directory (component).Id;
             }
 
             var rec = db.table_shortcut.add (shortcut.Id, directory, shortcut.Name, component.Id);
-- 
2.43.0


From 104eafcb3083a33d9e9e1ae3157560f827e30a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 85/85] fix: wixl: accept CDATA sections

---
 tools/wixl/wix.vala | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 4e2c6f8..06ba266 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -215,7 +215,13 @@ namespace Wixl {
                 case Xml.ElementType.COMMENT_NODE:
                     continue;
                 case Xml.ElementType.TEXT_NODE:
-                    add_child (new WixText (child->content));
+                case Xml.ElementType.CDATA_SECTION_NODE:
+                    // one text for adjacent text and CDATA sections
+                    unowned List<WixNode> last = children.last ();
+                    if (last != null && last.data is WixText)
+                        ((WixText) last.data).Text += child->content;
+                    else
+                        add_child (new WixText (child->content));
                     continue;
                 case Xml.ElementType.ELEMENT_NODE:
                     var t = child_types->lookup (child->name);
-- 
2.43.0

