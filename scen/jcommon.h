#pragma once
#include <string>
extern "C" { // dblog.h and dbdump.h declare some of these differently from dbapi.h
void wg_journal_filename(void* db, char* buf, size_t n); gint wg_check_dump(void* db, char* fn, gint* mn, gint* mx); 
}
