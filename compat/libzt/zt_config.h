#ifndef __ZT_CONFIG_H__
#define __ZT_CONFIG_H__

/* #undef LIBZT_COVERAGE_TESTING */
/* #undef PTHREAD_CREATE_JOINABLE */
#define HOST_BIGENDIAN 0
#define HAVE_SYSLOG 1

/********************* types *********************/
/* #undef HAVE_UINT64_T */
/* #undef HAVE_UINT32_T */
/* #undef HAVE_UINT16_T */
/* #undef HAVE_UINT8_T */

/* #undef HAVE_INT8_T */
/* #undef HAVE_INT16_T */
/* #undef HAVE_INT32_T */
/* #undef HAVE_INT64_T */

/* #undef HAVE_PID_T */
/* #undef HAVE_SIZE_T */

/* #undef HAVE_CONST */

/********************* services *********************/
/* #undef WITH_DMALLOC */

/********************* headers **********************/
/* #undef HAVE_PROCESS_H */

#endif /* __ZT_CONFIG_H__ */
