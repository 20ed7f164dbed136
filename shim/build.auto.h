/*
 * Autogenerated by the Meson build system.
 * Do not edit, your changes will be lost.
 */

#pragma once

/* Configuration path */
#define CFGOPTDEF_CONFIG_PATH "/etc/pgbackrest"

/* Enable debug code */
#define DEBUG

/* Extern function required by other compilation units */
#define FN_EXTERN extern

/* Is __builtin_types_compatible_p present? */
#define HAVE_BUILTIN_TYPES_COMPATIBLE_P

/* Is libbacktrace present? */
#define HAVE_LIBBACKTRACE

/* Is libssh2 present? */
#define HAVE_LIBSSH2

/* Is libsystemd present? */
#define HAVE_LIBSYSTEMD

/* Is libzstd present? */
#define HAVE_LIBZST

/* Extern variable declaration required by other compilation units */
#define VR_EXTERN_DECLARE extern

/* Extern variable definition required by other compilation units */
#define VR_EXTERN_DEFINE 

/* Indicate that the char array is intentionally not NULL terminated */
#define VR_NON_STRING __attribute__((nonstring))

/* Require zlib const input buffer */
#define ZLIB_CONST

