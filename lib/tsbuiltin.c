/* The builtin triplestore (used when DLite is built without librdf), under other names. */
#define triplestore_create bt_create
#define triplestore_create_with_storage bt_create_with_storage
#define triplestore_free bt_free
#define triplestore_set_namespace bt_set_namespace
#define triplestore_get_namespace bt_get_namespace
#define triplestore_length bt_length
#define triplestore_add bt_add
#define triplestore_add_en bt_add_en
#define triplestore_add_uri bt_add_uri
#define triplestore_add_triples bt_add_triples
#define triplestore_remove bt_remove
#define triplestore_remove_by_id bt_remove_by_id
#define triplestore_clear bt_clear
#define triplestore_get bt_get
#define triplestore_find_first bt_find_first
#define triplestore_init_state bt_init_state
#define triplestore_deinit_state bt_deinit_state
#define triplestore_reset_state bt_reset_state
#define triplestore_next bt_next
#define triplestore_poll bt_poll
#define triplestore_find bt_find
#define triplestore_value bt_value
#include "config.h"
#undef HAVE_REDLAND
#include "triplestore.c"
