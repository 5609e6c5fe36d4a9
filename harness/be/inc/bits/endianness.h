/* byte order of the target, for the host's C headers */
#ifndef _BITS_ENDIANNESS_H
#define _BITS_ENDIANNESS_H 1
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
# define __BYTE_ORDER 4321
#else
# define __BYTE_ORDER 1234
#endif
#endif
