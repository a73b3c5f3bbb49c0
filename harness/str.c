/* Strings the library returns fit the buffers MPI sizes for them and are what they should be.
 * case 0: processor name, for every host name and every way gethostname can behave
 * case 1: error string of every code   case 2: library version   case 3: MPI version */
#define OWN_HOSTNAME
#include "env.h"
static int hostret, hostlen, hostterm;
static char host[300];
int gethostname(char *name, size_t len) {
  size_t i;
  if (hostret) return -1; /* the buffer's content is then unspecified */
  for (i = 0; i < len && (int)i < hostlen; i++) name[i] = host[i];
  if (i < len) name[i] = 0; /* a name that does not fit is not terminated */
  return 0;
}
int main(void) {
  int c = sx_case(), i, len = -7;
  char b[400];
  MPI_Init(NULL, NULL);
  sx_term_forbidden("always legal");
  sx_bytes(b, 200, "b");
  for (i = 200; i < 400; i++) b[i] = 0x5a;
  if (c == 0) {
    static const int lens[] = {0, 1, 5, 63, 126, 127, 128, 129, 200, 255};
    hostret = sx_pick("fails", 0, 1);
    hostlen = lens[sx_pick("length", 0, 9)];
    sx_bytes(host, hostlen, "host");
    for (i = 0; i < hostlen; i++) sx_assume(host[i] != 0);
    for (i = 128; i < 400; i++) b[i] = 0x5a;
    MPI_Get_processor_name(b, &len);
    CHECK(len >= 0, "a length");
    CHECK(len < MPI_MAX_PROCESSOR_NAME, "the name fits MPI_MAX_PROCESSOR_NAME");
    if (!hostret) {
      CHECK(len == (hostlen < 127 ? hostlen : 127), "the length of the host's name");
      for (i = 0; i < len; i++) CHECK(b[i] == host[i], "the host's name");
    } else CHECK(len > 0, "some name");
    CHECK(b[len] == 0, "the length is that of the string");
    for (i = 0; i < len; i++) CHECK(b[i] != 0, "the length is that of the string");
    for (i = 128; i < 400; i++) CHECK(b[i] == 0x5a, "nothing beyond MPI_MAX_PROCESSOR_NAME is written");
    sx_obs("len", len);
    /* and again */
    { int l0 = len; char b2[400]; for (i = 0; i < 400; i++) b2[i] = 0x5a;
      len = -7;
      MPI_Get_processor_name(b2, &len);
      CHECK(len == l0, "asked again, the same length");
      for (i = 0; i <= l0; i++) CHECK(b2[i] == b[i], "asked again, the same name");
      for (i = 128; i < 400; i++) CHECK(b2[i] == 0x5a, "nothing beyond MPI_MAX_PROCESSOR_NAME is written"); }
    COVER("named");
  } else if (c == 1) {
    int code = sx_i32("code"), k, any = 0;
    for (i = 128; i < 400; i++) b[i] = 0x5a;
    MPI_Error_string(code, b, &len);
    CHECK(len > 0, "some text");
    CHECK(len < MPI_MAX_ERROR_STRING, "the text fits MPI_MAX_ERROR_STRING");
    len = sx_conc(len);
    CHECK(b[len] == 0, "the length is that of the string");
    for (i = 0; i < len; i++) CHECK(b[i] != 0, "the length is that of the string");
    for (i = 128; i < 400; i++) CHECK(b[i] == 0x5a, "nothing beyond MPI_MAX_ERROR_STRING is written");
    sx_obs("len", len);
    { int l1 = -7, l2 = -7; char e2[400], e3[400]; for (i = 0; i < 400; i++) e2[i] = 0x5a;
      MPI_Error_string(sx_pick("other code", 0, 1) ? -2147483647 - 1 : 7, e2, &l1);
      CHECK(l1 > 0 && l1 < MPI_MAX_ERROR_STRING, "the text fits MPI_MAX_ERROR_STRING");
      l1 = sx_conc(l1); CHECK(e2[l1] == 0, "the length is that of the string");
      MPI_Error_string(code, e3, &l2);
      CHECK(l2 == len, "asked again, the same length");
      for (i = 0; i <= len; i++) CHECK(e3[i] == b[i], "asked again, the same text"); }
    COVER("error string");
  } else if (c == 2) {
    for (i = MPI_MAX_LIBRARY_VERSION_STRING; i < 400; i++) b[i] = 0x5a;
    MPI_Get_library_version(b, &len);
    CHECK(len > 0, "some text");
    CHECK(len < MPI_MAX_LIBRARY_VERSION_STRING, "the text fits");
#ifdef FAPI
    for (i = len; i < MPI_MAX_LIBRARY_VERSION_STRING; i++) CHECK(b[i] == ' ', "a Fortran string is padded with blanks");
#else
    CHECK(b[len] == 0, "the length is that of the string");
#endif
    for (i = 0; i < len; i++) CHECK(b[i] != 0, "the length is that of the string");
    CHECK(memcmp(b, "mpi-serial", 10) == 0, "the library names itself");
    for (i = MPI_MAX_LIBRARY_VERSION_STRING; i < 400; i++) CHECK(b[i] == 0x5a, "nothing beyond the maximum is written");
    COVER("version");
  }
  sx_end();
}
