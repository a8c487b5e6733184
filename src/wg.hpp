// The library's own (internal) headers, usable from C++.
#pragma once
extern "C" {
#include "dballoc.h"
#include "dbdata.h"
#include "dbcompare.h"
#include "dbindex.h"
#include "dbhash.h"
#include "dbquery.h"
#include "dbmem.h"
#include "dbdump.h"
#include "dblog.h"
#include "dbjson.h"
#include "dbschema.h"
#include "dbutil.h"
gint wg_start_write(void *dbase); gint wg_end_write(void *dbase, gint lock);
gint wg_start_read(void *dbase); gint wg_end_read(void *dbase, gint lock);
gint wg_compare_and_swap(volatile gint *ptr, gint oldv, gint newv);
}
#undef car
#undef cdr
#undef max
#undef min
