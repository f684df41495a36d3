# Pre-computed results of CMake's platform probes (same sandbox image), to speed up configuration.
set(HAVE_ACCESS "1" CACHE INTERNAL "")
set(HAVE_ASNPPRINTF "" CACHE INTERNAL "")
set(HAVE_ASPRINTF "1" CACHE INTERNAL "")
set(HAVE_BCryptGenRandom "" CACHE INTERNAL "")
set(HAVE_BSWAP_128 "" CACHE INTERNAL "")
set(HAVE_BSWAP_16 "1" CACHE INTERNAL "")
set(HAVE_BSWAP_32 "1" CACHE INTERNAL "")
set(HAVE_BSWAP_64 "1" CACHE INTERNAL "")
set(HAVE_BYTESWAP_H "1" CACHE INTERNAL "")
set(HAVE_CLOCK "1" CACHE INTERNAL "")
set(HAVE_CLOCK_T "8" CACHE INTERNAL "")
set(HAVE_CreateProcessA "" CACHE INTERNAL "")
set(HAVE_ENDIAN_H "1" CACHE INTERNAL "")
set(HAVE_EXT2__VA_ARGS__ "1" CACHE INTERNAL "")
set(HAVE_EXT__VA_ARGS__ "" CACHE INTERNAL "")
set(HAVE_FLOAT_H "1" CACHE INTERNAL "")
set(HAVE_GCC_THREAD_LOCAL_STORAGE "1" CACHE INTERNAL "")
set(HAVE_GETOPT "1" CACHE INTERNAL "")
set(HAVE_GETOPT_LONG "1" CACHE INTERNAL "")
set(HAVE_GetSystemTime "" CACHE INTERNAL "")
set(HAVE_HAVE_CLOCK_T "TRUE" CACHE INTERNAL "")
set(HAVE_HAVE_SIZE_T "TRUE" CACHE INTERNAL "")
set(HAVE_HTOBE128 "" CACHE INTERNAL "")
set(HAVE_HTOBE16 "1" CACHE INTERNAL "")
set(HAVE_HTOBE32 "1" CACHE INTERNAL "")
set(HAVE_HTOBE64 "1" CACHE INTERNAL "")
set(HAVE_INT128_T "FALSE" CACHE INTERNAL "")
set(HAVE_INTMAX_T "TRUE" CACHE INTERNAL "")
set(HAVE_INTTYPES_H "1" CACHE INTERNAL "")
set(HAVE_IO_H "" CACHE INTERNAL "")
set(HAVE_ISATTY "1" CACHE INTERNAL "")
set(HAVE_LCONV_DECIMAL_POINT "1" CACHE INTERNAL "")
set(HAVE_LCONV_THOUSANDS_SEP "1" CACHE INTERNAL "")
set(HAVE_LOCALECONV "1" CACHE INTERNAL "")
set(HAVE_LOCALE_H "1" CACHE INTERNAL "")
set(HAVE_LONG_DOUBLE "TRUE" CACHE INTERNAL "")
set(HAVE_LONG_LONG_INT "TRUE" CACHE INTERNAL "")
set(HAVE_MBSTOWCS "1" CACHE INTERNAL "")
set(HAVE_MBSTOWCS_S "" CACHE INTERNAL "")
set(HAVE_MTX_DESTROY "1" CACHE INTERNAL "")
set(HAVE_MTX_INIT "1" CACHE INTERNAL "")
set(HAVE_MTX_LOCK "1" CACHE INTERNAL "")
set(HAVE_MTX_TIMEDLOCK "1" CACHE INTERNAL "")
set(HAVE_MTX_TRYLOCK "1" CACHE INTERNAL "")
set(HAVE_MTX_UNLOCK "1" CACHE INTERNAL "")
set(HAVE_PTRDIFF_T "TRUE" CACHE INTERNAL "")
set(HAVE_P_TMPDIR "1" CACHE INTERNAL "")
set(HAVE_PathFileExists "" CACHE INTERNAL "")
set(HAVE_PathFileExistsW "" CACHE INTERNAL "")
set(HAVE_REALPATH "1" CACHE INTERNAL "")
set(HAVE_SETENV "1" CACHE INTERNAL "")
set(HAVE_SIZEOF_BOOL "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_CHAR "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_DOUBLE "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_FLOAT "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_INT "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_LONG "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_LONG_DOUBLE "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_LONG_LONG "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_SHORT "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_SIZE_T "TRUE" CACHE INTERNAL "")
set(HAVE_SIZE_T "8" CACHE INTERNAL "")
set(HAVE_SNPRINTF "1" CACHE INTERNAL "")
set(HAVE_STAT "1" CACHE INTERNAL "")
set(HAVE_STDARG_H "1" CACHE INTERNAL "")
set(HAVE_STDBOOL_H "1" CACHE INTERNAL "")
set(HAVE_STDDEF_H "1" CACHE INTERNAL "")
set(HAVE_STDINT_H "1" CACHE INTERNAL "")
set(HAVE_STDLIB_H "1" CACHE INTERNAL "")
set(HAVE_STRCASECMP "1" CACHE INTERNAL "")
set(HAVE_STRDUP "1" CACHE INTERNAL "")
set(HAVE_STRLCAT "1" CACHE INTERNAL "")
set(HAVE_STRLCPY "1" CACHE INTERNAL "")
set(HAVE_STRNCASECMP "1" CACHE INTERNAL "")
set(HAVE_STRNDUP "1" CACHE INTERNAL "")
set(HAVE_SYS_TYPES_H "1" CACHE INTERNAL "")
set(HAVE_TIME_H "1" CACHE INTERNAL "")
set(HAVE_UINT128_T "FALSE" CACHE INTERNAL "")
set(HAVE_UINT16_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT32_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT64_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT8_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINTMAX_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINTPTR_T "TRUE" CACHE INTERNAL "")
set(HAVE_UNISTD_H "1" CACHE INTERNAL "")
set(HAVE_UNSETENV "1" CACHE INTERNAL "")
set(HAVE_UNSIGNED_LONG_LONG_INT "TRUE" CACHE INTERNAL "")
set(HAVE_VASPRINTF "1" CACHE INTERNAL "")
set(HAVE_VA_COPY "1" CACHE INTERNAL "")
set(HAVE_VSNPRINTF "1" CACHE INTERNAL "")
set(HAVE_WCSTOMBS "1" CACHE INTERNAL "")
set(HAVE_WCSTOMBS_S "" CACHE INTERNAL "")
set(HAVE_WIN32_THREAD_LOCAL_STORAGE "" CACHE INTERNAL "")
set(HAVE_WINDOWS_H "" CACHE INTERNAL "")
set(HAVE__ACCESS "" CACHE INTERNAL "")
set(HAVE__ASPRINTF "" CACHE INTERNAL "")
set(HAVE__BYTESWAP_UINT128 "" CACHE INTERNAL "")
set(HAVE__BYTESWAP_UINT64 "" CACHE INTERNAL "")
set(HAVE__BYTESWAP_ULONG "" CACHE INTERNAL "")
set(HAVE__BYTESWAP_USHORT "" CACHE INTERNAL "")
set(HAVE__FILENO "" CACHE INTERNAL "")
set(HAVE__ISATTY "" CACHE INTERNAL "")
set(HAVE__PUTENV_S "" CACHE INTERNAL "")
set(HAVE__SNPRINTF "" CACHE INTERNAL "")
set(HAVE__STRDUP "" CACHE INTERNAL "")
set(HAVE__STRICMP "" CACHE INTERNAL "")
set(HAVE__STRNDUP "" CACHE INTERNAL "")
set(HAVE__STRNICMP "" CACHE INTERNAL "")
set(HAVE__VASPRINTF "" CACHE INTERNAL "")
set(HAVE__VSNPRINTF "" CACHE INTERNAL "")
set(HAVE___FUNCTION__ "1" CACHE INTERNAL "")
set(HAVE___FUNC__ "1" CACHE INTERNAL "")
set(HAVE___INT128_T "TRUE" CACHE INTERNAL "")
set(HAVE___UINT128_T "TRUE" CACHE INTERNAL "")
set(HAVE___VA_ARGS__ "1" CACHE INTERNAL "")
set(HAVE___VA_COPY "1" CACHE INTERNAL "")
set(HAVE___VA_OPT__ "1" CACHE INTERNAL "")
set(INT128_T "" CACHE INTERNAL "")
set(INTMAX_T "8" CACHE INTERNAL "")
set(LONG_DOUBLE "16" CACHE INTERNAL "")
set(LONG_LONG_INT "8" CACHE INTERNAL "")
set(PTRDIFF_T "8" CACHE INTERNAL "")
set(SIZEOF_BOOL "1" CACHE INTERNAL "")
set(SIZEOF_CHAR "1" CACHE INTERNAL "")
set(SIZEOF_DOUBLE "8" CACHE INTERNAL "")
set(SIZEOF_FLOAT "4" CACHE INTERNAL "")
set(SIZEOF_INT "4" CACHE INTERNAL "")
set(SIZEOF_LONG "8" CACHE INTERNAL "")
set(SIZEOF_LONG_DOUBLE "16" CACHE INTERNAL "")
set(SIZEOF_LONG_LONG "8" CACHE INTERNAL "")
set(SIZEOF_SHORT "2" CACHE INTERNAL "")
set(SIZEOF_SIZE_T "8" CACHE INTERNAL "")
set(UINT128_T "" CACHE INTERNAL "")
set(UINT16_T "2" CACHE INTERNAL "")
set(UINT32_T "4" CACHE INTERNAL "")
set(UINT64_T "8" CACHE INTERNAL "")
set(UINT8_T "1" CACHE INTERNAL "")
set(UINTMAX_T "8" CACHE INTERNAL "")
set(UINTPTR_T "8" CACHE INTERNAL "")
set(UNSIGNED_LONG_LONG_INT "8" CACHE INTERNAL "")
set(__INT128_T "16" CACHE INTERNAL "")
set(__UINT128_T "16" CACHE INTERNAL "")
