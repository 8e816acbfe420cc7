/* Fixed configuration used for the analysis (stands in for configure's config.h). */
#ifndef VERIF_SHIM_CONFIG_H
#define VERIF_SHIM_CONFIG_H
#define PACKAGE "asm6809"
#define PACKAGE_NAME "asm6809"
#define PACKAGE_VERSION "0"
#define VERSION "0"
#define _GL_ATTRIBUTE_PURE __attribute__ ((__pure__))
#define _GL_ATTRIBUTE_CONST __attribute__ ((__const__))
#define _GL_ATTRIBUTE_MALLOC
#define _GL_INLINE static inline
#define _GL_EXTERN_INLINE static inline
#define _GL_INLINE_HEADER_BEGIN
#define _GL_INLINE_HEADER_END
#define _GL_UNUSED __attribute__ ((__unused__))
#define _GL_ATTRIBUTE_FALLTHROUGH __attribute__ ((__fallthrough__))
#endif
