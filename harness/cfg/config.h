/* What ./configure writes on this platform (gfortran name mangling, no options). */
#define FC_FUNC(name,NAME) name ## _
#define FC_FUNC_(name,NAME) name ## _
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "mpi-serial"
#define PACKAGE_BUGREPORT "https://github.com/ESMCI/mpi-serial"
#define PACKAGE_NAME "mpi-serial"
#define PACKAGE_STRING "mpi-serial 2.5.0"
#define PACKAGE_TARNAME "mpi-serial"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "2.5.0"
#define SIZEOF_LONG 8
#define STDC_HEADERS 1
#define VERSION "2.5.0"
