"""Behaviour of external functions, as the analyses need it."""
from .engine import P, C, NUL, INF

NN = (1, INF, frozenset())
POS = (1, INF, frozenset())


def spec(ret=None, own=None, nullable=False, free=(), need=(), esc=(), borrow=True, arg=None, nofail=False, out=(), prov=None, zero=False):
    return dict(ret=ret, own=own, nullable=nullable, free=free, need=need, esc=esc, borrow=borrow, arg=arg, out=out, prov=prov, zero=zero)


S = {}


def add(names, **kw):
    for n in names.split():
        S[n] = spec(**kw)


# --- allocation
add('g_malloc g_malloc_n', own='mem')
add('g_malloc0 g_malloc0_n', own='mem', zero=True)
add('malloc', own='mem', nullable=True)
add('calloc', own='mem', nullable=True, zero=True)
add('g_strdup', own='mem', nullable='arg0', prov=0)
add('strdup', own='mem', need=(0,), prov=0)
add('g_strndup', own='mem', nullable='arg0')
add('g_strdup_printf g_strdup_vprintf', own='mem', need=(0,))
add('g_strdupv', own='strv', nullable='arg0')
add('g_strsplit', own='strv', need=(0, 1))
add('g_strfreev', free=(0,))
add('g_strconcat g_strjoin g_build_filename', own='mem')
add('g_strjoinv', own='mem')
add('g_compute_checksum_for_string', own='mem', nullable=True)
add('realpath', own='realpath', nullable=True, need=(0,))
add('__cxa_demangle', own='mem', nullable=True)
add('g_free free', free=(0,))
add('g_clear_pointer', free=())
# --- GString
add('g_string_new g_string_sized_new g_string_new_len', own='gstring')
add('g_string_append g_string_append_c g_string_append_printf g_string_append_len g_string_prepend g_string_erase g_string_truncate g_string_assign g_string_prepend_c g_string_insert_c g_string_insert g_string_append_vprintf g_string_printf g_string_append_unichar g_string_set_size g_string_overwrite g_string_ascii_down', ret='arg0', need=(0,))
# g_string_free and g_string_free_and_steal: special
add('g_string_free_and_steal', own='mem', free=(0,), need=(0,))
# --- checksum
add('g_checksum_new', own='checksum')
add('g_checksum_free', free=(0,))
add('g_checksum_update g_checksum_get_digest', need=(0,))
# --- json
add('json_tokener_parse_verbose', own='json', nullable=True, need=(0,), out=(1,))
add('json_tokener_parse', own='json', nullable=True, need=(0,))
add('json_object_put', free=(0,))
add('json_object_array_get_idx', ret='nullable')
add('json_object_get_string', ret='nullable')
add('json_object_get_object', ret='nullable')
add('json_object_array_length json_object_get_boolean json_object_get_int json_object_get_int64 json_object_is_type json_object_get_type', ret='int')
add('json_tokener_error_desc json_type_to_name', ret='nonnull')
# --- files
add('open open64', own='fd', need=(0,))
add('close', free=(0,))
add('read pread', ret='int', need=(1,))
add('lseek write access fprintf printf puts vfprintf perror', ret='int')
add('opendir', own='DIR', nullable=True, need=(0,))
add('closedir', free=(0,))
add('fopen fdopen popen', own='FILE', nullable=True)
add('fclose pclose', free=(0,))
# --- libelf / libdw
add('elf_begin', own='elf', nullable=True)
add('elf_end', free=(0,))
add('dwfl_begin', own='dwfl', nullable=True)
add('dwfl_end', free=(0,))
add('elf_getdata elf_getdata_rawchunk elf_getscn elf_nextscn elf_getident elf_strptr gelf_getehdr gelf_getphdr gelf_getshdr gelf_getsym gelf_getrela dwfl_addrmodule dwfl_module_getelf dwfl_module_addrname dwfl_module_info dwfl_thread_dwfl', ret='nullable')
add('elf_errmsg dwfl_errmsg dwarf_errmsg', ret='nonnull')
# --- rpm
add('rpmtdNew', own='rpmtd')
add('rpmtdFree', ret='null', free=(0,))
add('rpmtsCreate', own='rpmts')
add('rpmtsFree', ret='null', free=(0,))
add('rpmtsInitIterator', own='rpmmi', nullable=True)
add('rpmdbInitIterator', own='rpmmi', nullable=True)
add('rpmdbFreeIterator', ret='null', free=(0,))
add('rpmdbNextIterator rpmtdGetString rpmtdGetUint32', ret='nullable')
add('headerGet rpmReadConfigFiles', ret='int')
# --- strings
add('strlen strcspn strspn', ret='len', need=(0,))
add('strchr strrchr strstr', ret='nullable', need=(0,))
add('strchrnul', ret='nonnull', need=(0,))
add('strcmp strncmp strcasecmp strncasecmp memcmp', ret='int', need=(0, 1))
add('g_strcmp0', ret='int')
add('__isoc23_strtoul __isoc23_strtoull __isoc23_strtol strtol strtoul strtoull', ret='int', need=(0,))
add('__isoc23_sscanf sscanf', ret='int', need=(0, 1))
add('strcat strcpy strncpy', ret='arg0', need=(0, 1))
add('strerror', ret='nonnull')
add('__errno_location', ret='errno')
add('tolower toupper', ret='int')
add('bsearch', ret='nullable')
add('g_str_has_prefix g_str_has_suffix', ret='int', need=(0, 1))
add('g_ascii_strtoull', ret='int', need=(0,))
add('qsort', ret=None)
add('g_hash_table_new g_hash_table_new_full', own='hash')
add('g_hash_table_destroy', free=(0,))
add('g_ptr_array_new g_array_new', own='array')
